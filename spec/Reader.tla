------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Readers of files: each gives the numbered, stripped, non-empty lines    *)
(* one after another, in the encoding in force, which may be changed       *)
(* between two lines.                                                      *)
(*    rds  reader -> [phys: lines as bytes, enc, no: last line looked at]  *)
(***************************************************************************)
EXTENDS Files

VARIABLE rds

RInit == rds = [r \in {} |-> 0]

TextAt(s, n) == LineText(s.enc, s.phys, n)
\* number of the next line which isn't blank, 0: none
NextNo(s) == LET ns == {n \in (s.no + 1)..Len(s.phys) : TextAt(s, n) # <<>>}
             IN IF ns = {} THEN 0 ELSE Min(ns)
LineAt(s, n) == [no |-> n, text |-> TextAt(s, n)]

ROpen(r, bytes, enc) == rds' = TLCEval((r :> [phys |-> PhysLines(bytes), enc |-> enc, no |-> 0]) @@ rds)
RNext(r) == rds' = TLCEval([rds EXCEPT ![r].no = LET n == NextNo(rds[r]) IN IF n = 0 THEN Len(rds[r].phys) ELSE n])
RRest(r) == rds' = TLCEval([rds EXCEPT ![r].no = Len(rds[r].phys)])
REncode(r, enc) == rds' = TLCEval([rds EXCEPT ![r].enc = enc])

\* answers
LineAnswer(r) == LET n == NextNo(rds[r])
                 IN IF n = 0 THEN [k |-> "end", v |-> <<>>] ELSE [k |-> "line", v |-> LineAt(rds[r], n)]
RestAnswer(r) == LET s == rds[r]
                     ns == SelectSeq([i \in 1..(Len(s.phys) - s.no) |-> s.no + i], LAMBDA n : TextAt(s, n) # <<>>)
                 IN [k |-> "lines", v |-> [i \in 1..Len(ns) |-> LineAt(s, ns[i])]]
=============================================================================
