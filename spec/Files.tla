------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* From bytes to the numbered, stripped, non-empty lines of a file, in the *)
(* encoding which is in force (the aff file may change it on the way).     *)
(* Single-byte encodings are tables of 256 code points, data written by    *)
(* the harness from the interpreter's codecs, undefined bytes being        *)
(* mapped to 0xDC00 + byte; UTF-8 is decoded here.                          *)
(***************************************************************************)
EXTENDS Text

EncTables == UniData.enc    \* record: name of encoding -> 256 code points

(* --- UTF-8; bytes which are not part of a valid sequence are escaped ------ *)
IsCont(b) == b \in 128..191
\* length of the valid sequence at position i (1-based), 0 if there is none
Utf8Len(bs, i) ==
    LET b == bs[i]
        has(k) == i + k <= Len(bs)
        c(k) == has(k) /\ IsCont(bs[i + k])
    IN CASE b < 128 -> 1
         [] b \in 194..223 -> IF c(1) THEN 2 ELSE 0
         [] b \in 224..239 -> IF /\ c(1) /\ c(2)
                                 /\ (b = 224 => bs[i + 1] >= 160)
                                 /\ (b = 237 => bs[i + 1] <= 159)
                              THEN 3 ELSE 0
         [] b \in 240..244 -> IF /\ c(1) /\ c(2) /\ c(3)
                                 /\ (b = 240 => bs[i + 1] >= 144)
                                 /\ (b = 244 => bs[i + 1] <= 143)
                              THEN 4 ELSE 0
         [] OTHER -> 0
RECURSIVE Utf8From(_, _, _)
Utf8From(bs, i, acc) ==
    IF i > Len(bs) THEN acc
    ELSE LET n == Utf8Len(bs, i)
             b == bs[i]
         IN CASE n = 0 -> Utf8From(bs, i + 1, Append(acc, 56320 + b))
              [] n = 1 -> Utf8From(bs, i + 1, Append(acc, b))
              [] n = 2 -> Utf8From(bs, i + 2, Append(acc, (b - 192) * 64 + (bs[i+1] - 128)))
              [] n = 3 -> Utf8From(bs, i + 3, Append(acc, (b - 224) * 4096 + (bs[i+1] - 128) * 64 + (bs[i+2] - 128)))
              [] n = 4 -> Utf8From(bs, i + 4, Append(acc, (b - 240) * 262144 + (bs[i+1] - 128) * 4096
                                                        + (bs[i+2] - 128) * 64 + (bs[i+3] - 128)))

AllAscii(bs) == \A i \in 1..Len(bs) : bs[i] < 128
Decode(enc, bs) ==
    IF enc = "UTF-8"
    THEN IF AllAscii(bs) THEN bs ELSE Utf8From(bs, 1, <<>>)
    ELSE LET t == EncTables[enc] IN [i \in 1..Len(bs) |-> t[bs[i] + 1]]

(* --- physical lines: ended by LF, CR or CR LF ------------------------------ *)
PhysLines(bs) ==
    LET step(a, b) ==
            IF b = 10 /\ a.cr THEN [a EXCEPT !.cr = FALSE]
            ELSE IF b \in {10, 13} THEN [cr |-> (b = 13), cur |-> <<>>, out |-> Append(a.out, a.cur), open |-> FALSE]
            ELSE [cr |-> FALSE, cur |-> Append(a.cur, b), out |-> a.out, open |-> TRUE]
        r == FoldLeft(step, [cr |-> FALSE, cur |-> <<>>, out |-> <<>>, open |-> FALSE], bs)
    IN IF r.open THEN Append(r.out, r.cur) ELSE r.out

BomBytes == <<239, 187, 191>>      \* as read in Windows-1252
BomChar  == 65279

\* the text of line number n
LineText(enc, phys, n) ==
    LET t == Decode(enc, phys[n])
        u == IF n = 1 /\ StartsWith(t, BomBytes) THEN ReplaceText(t, BomBytes, <<>>) ELSE t
        v == IF n = 1 /\ u # <<>> /\ u[1] = BomChar THEN Tail(u) ELSE u
    IN TLCEval(Strip(v))
=============================================================================
