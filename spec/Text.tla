-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts as sequences of code points; offsets are counted from 0, as the  *)
(* number of characters before the place.                                  *)
(***************************************************************************)
EXTENDS Unicode, FiniteSets, FiniteSetsExt

Space == 32
Dash  == 45
Under == 95

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
AbsDiff(a, b) == IF a >= b THEN a - b ELSE b - a

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* text between two offsets
Slice(s, a, b) == SubSeq(s, a + 1, b)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
OccursAt(s, p, i) == i + Len(p) <= Len(s) /\ SubSeq(s, i + 1, i + Len(p)) = p

\* the first offset >= i where p occurs in s, or -1
RECURSIVE Find(_, _, _)
Find(s, p, i) == IF i + Len(p) > Len(s) THEN -1
                 ELSE IF SubSeq(s, i + 1, i + Len(p)) = p THEN i
                 ELSE Find(s, p, i + 1)

HasSub(s, p) == Find(s, p, 0) # -1
HasChar(s, c) == \E i \in 1..Len(s) : s[i] = c
Range1(s) == {s[i] : i \in 1..Len(s)}

\* concatenation of a sequence of sequences
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* concatenation with a separator
JoinBy(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(parts), Tail(parts))

\* cut s at every occurrence of the character c, at most n times (n < 0: no limit)
RECURSIVE SplitN(_, _, _)
SplitN(s, c, n) ==
    LET i == Find(s, <<c>>, 0)
    IN IF n = 0 \/ i = -1 THEN <<s>>
       ELSE <<Take(s, i)>> \o SplitN(Drop(s, i + 1), c, n - 1)

\* replace every occurrence of the character c by the text t
ReplaceChar(s, c, t) == Flat([i \in 1..Len(s) |-> IF s[i] = c THEN t ELSE <<s[i]>>])
RemoveChars(s, cs) == SelectSeq(s, LAMBDA c : c \notin cs)

\* non-overlapping replacement of a text, left to right
RECURSIVE ReplaceText(_, _, _)
ReplaceText(s, p, t) ==
    LET i == Find(s, p, 0)
    IN IF i = -1 THEN s ELSE Take(s, i) \o t \o ReplaceText(Drop(s, i + Len(p)), p, t)

\* order of texts: by code points
RECURSIVE TextLessFrom(_, _, _)
TextLessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE TextLessFrom(a, b, i + 1)
TextLess(a, b) == TextLessFrom(a, b, 1)

(* --- white space -------------------------------------------------------- *)
RECURSIVE StripLeft(_)
StripLeft(s) == IF s # <<>> /\ IsSpaceC(s[1]) THEN StripLeft(Tail(s)) ELSE s
RECURSIVE StripRight(_)
StripRight(s) == IF s # <<>> /\ IsSpaceC(s[Len(s)]) THEN StripRight(Take(s, Len(s) - 1)) ELSE s
RECURSIVE DropRight(_, _)
DropRight(s, chars) == IF s # <<>> /\ s[Len(s)] \in chars THEN DropRight(Take(s, Len(s) - 1), chars) ELSE s
Strip(s) == StripRight(StripLeft(s))

\* cut at runs of white space; texts without white space at the ends have no empty pieces
Tokens(s) ==
    LET step(a, c) == IF IsSpaceC(c)
                      THEN IF a.inw THEN [a EXCEPT !.inw = FALSE, !.out = Append(@, <<>>)] ELSE a
                      ELSE [inw |-> TRUE, out |-> [a.out EXCEPT ![Len(a.out)] = Append(@, c)]]
    IN FoldLeft(step, [inw |-> TRUE, out |-> << <<>> >>], s).out

(* --- full case mappings --------------------------------------------------- *)
\* a capital sigma at the end of a word has a lower case of its own
Sigma == 931
FinalSigma == 962
AtWordEnd(s, i) ==
    /\ \E j \in 1..(i - 1) : IsCased(s[j]) /\ \A k \in (j + 1)..(i - 1) : IsSkipped(s[k])
    /\ ~ \E j \in (i + 1)..Len(s) : IsCased(s[j]) /\ \A k \in (i + 1)..(j - 1) : IsSkipped(s[k])
LowerAt(s, i) == IF s[i] = Sigma /\ AtWordEnd(s, i) THEN <<FinalSigma>> ELSE LowerOf(s[i])
Lower(s) == Flat([i \in 1..Len(s) |-> LowerAt(s, i)])
Upper(s) == Flat([i \in 1..Len(s) |-> UpperOf(s[i])])
Capitalized(s) == IF s = <<>> THEN <<>> ELSE TitleOf(s[1]) \o Flat([i \in 1..(Len(s) - 1) |-> LowerAt(s, i + 1)])

IsLowerText(s) == /\ \E i \in 1..Len(s) : IsLowerC(s[i])
                  /\ \A i \in 1..Len(s) : ~IsUpperC(s[i]) /\ ~IsTitleC(s[i])
IsUpperText(s) == /\ \E i \in 1..Len(s) : IsUpperC(s[i])
                  /\ \A i \in 1..Len(s) : ~IsLowerC(s[i]) /\ ~IsTitleC(s[i])

(* --- numbers -------------------------------------------------------------- *)
IsAsciiDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
IntOf(s) == IF s # <<>> /\ s[1] = Dash
            THEN 0 - FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, Tail(s))
            ELSE FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)

AllDecimal(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDecimal(s[i])
\* digits, optionally one dot and digits
IsNumber(s) ==
    \/ AllDecimal(s)
    \/ \E i \in 1..(Len(s) - 2) : /\ s[i + 1] = 46
                                  /\ AllDecimal(Take(s, i)) /\ AllDecimal(Drop(s, i + 1))
=============================================================================
