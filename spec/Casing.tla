------------------------------- MODULE Casing -------------------------------
(***************************************************************************)
(* Capitalization types and the rules of casing: standard, German          *)
(* (CHECKSHARPS) and Turkic (LANG).  kind is "std", "de" or "tr".          *)
(***************************************************************************)
EXTENDS Text

SharpS == 223     \* ß
DotI   == 304     \* İ
DotlessI == 305   \* ı
LatI   == 73      \* I
Lati   == 105     \* i
CombDot == 775
CapSS  == <<83, 83>>
LowSS  == <<115, 115>>

StdGuess(w) ==
    IF IsLowerText(w) THEN "NO"
    ELSE IF IsUpperText(w) THEN "ALL"
    ELSE IF w # <<>> /\ IsUpperC(w[1])
         THEN IF IsLowerText(Tail(w)) THEN "INIT" ELSE "HUHINIT"
    ELSE "HUH"

Guess(kind, w) ==
    LET g == StdGuess(w)
    IN IF kind = "de" /\ HasChar(w, SharpS) /\ StdGuess(RemoveChars(w, {SharpS})) = "ALL"
       THEN "ALL" ELSE g

TrLow(w) == [i \in 1..Len(w) |-> IF w[i] = DotI THEN Lati ELSE IF w[i] = LatI THEN DotlessI ELSE w[i]]
TrUp(w)  == [i \in 1..Len(w) |-> IF w[i] = Lati THEN DotI ELSE IF w[i] = DotlessI THEN LatI ELSE w[i]]

\* zero or one lower-case reading
StdLowerings(w) ==
    IF w = <<>> THEN <<>>
    ELSE IF w[1] = DotI THEN <<>>
    ELSE << ReplaceText(Lower(w), <<Lati, CombDot>>, <<Lati>>) >>

\* all the readings of "ss" as sharp s, at least one replaced
RECURSIVE SharpVariants(_, _)
SharpVariants(t, start) ==
    LET pos == Find(t, LowSS, start)
    IN IF pos = -1 THEN <<>>
       ELSE LET r == Take(t, pos) \o <<SharpS>> \o Drop(t, pos + 2)
            IN <<r>> \o SharpVariants(r, pos + 1) \o SharpVariants(t, pos + 2)

\* sequence of possible lower-case readings
Lowerings(kind, w) ==
    CASE kind = "tr" -> StdLowerings(TrLow(w))
      [] kind = "de" -> LET r == StdLowerings(w)
                        IN IF HasSub(w, CapSS) /\ r # <<>> THEN SharpVariants(r[1], 0) \o r ELSE r
      [] OTHER -> StdLowerings(w)

Uppered(kind, w) == IF kind = "tr" THEN Upper(TrUp(w)) ELSE Upper(w)

\* title-case readings (a single character may give several)
Capitalizings(kind, w) ==
    IF Len(w) = 1
    THEN LET u == Uppered(kind, w) IN [i \in 1..Len(u) |-> <<u[i]>>]
    ELSE LET ls == Lowerings(kind, Tail(w))
             u  == Uppered(kind, <<w[1]>>)
         IN [i \in 1..Len(ls) |-> u \o ls[i]]

LowerFirsts(kind, w) ==
    LET ls == Lowerings(kind, <<w[1]>>) IN [i \in 1..Len(ls) |-> ls[i] \o Tail(w)]

\* what a word in the text may be in the dictionary
Variants(kind, w) ==
    LET c == Guess(kind, w)
    IN [cap |-> c,
        vs |-> TLCEval(CASE c = "NO" -> <<w>>
                 [] c = "INIT" -> <<w>> \o Lowerings(kind, w)
                 [] c = "HUHINIT" -> <<w>> \o LowerFirsts(kind, w)
                 [] c = "HUH" -> <<w>>
                 [] c = "ALL" -> <<w>> \o Lowerings(kind, w) \o Capitalizings(kind, w))]

\* from which spellings corrections are searched
Corrections(kind, w) ==
    LET c == Guess(kind, w)
    IN [cap |-> c,
        vs |-> TLCEval(CASE c = "NO" -> <<w>>
                 [] c = "INIT" -> <<w>> \o Lowerings(kind, w)
                 [] c = "HUHINIT" -> <<w>> \o LowerFirsts(kind, w) \o Lowerings(kind, w) \o Capitalizings(kind, w)
                 [] c = "HUH" -> <<w>> \o Lowerings(kind, w)
                 [] c = "ALL" -> <<w>> \o Lowerings(kind, w) \o Capitalizings(kind, w))]

\* spelling of a found word in the capitalization of the misspelled one
Coerce(kind, w, cap) ==
    IF w # <<>> /\ cap \in {"INIT", "HUHINIT"} THEN Uppered(kind, <<w[1]>>) \o Tail(w)
    ELSE IF cap = "ALL" THEN Uppered(kind, w)
    ELSE w
=============================================================================
