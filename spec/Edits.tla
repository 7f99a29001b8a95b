------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* Possible corrections of a text, in order.  A candidate is               *)
(*   [kind, ws, dash]: one text (ws has one element), or several words to  *)
(*   be offered with spaces between them (dash: also with dashes).         *)
(***************************************************************************)
EXTENDS Lookup

MaxDistance == 4

One(kind, t) == [kind |-> kind, ws |-> <<t>>, dash |-> FALSE]
OneEach(kind, ts) == [i \in 1..Len(ts) |-> One(kind, ts[i])]

\* all lengths are counted from the text w
Swaps(w) ==
    LET n == Len(w)
        nb == [i \in 1..(n - 1) |-> Take(w, i - 1) \o <<w[i + 1], w[i]>> \o Drop(w, i + 1)]
        dbl == CASE n = 4 -> << <<w[2], w[1], w[4], w[3]>> >>
                 [] n = 5 -> << <<w[2], w[1], w[3], w[5], w[4]>>, <<w[1], w[3], w[2], w[5], w[4]>> >>
                 [] OTHER -> <<>>
    IN IF n < 2 THEN <<>> ELSE nb \o dbl

LongSwaps(w) ==
    LET n == Len(w)
        sw(i, j) == [w EXCEPT ![i] = w[j], ![j] = w[i]]
        from(i) == LET hi == Min2(i + MaxDistance, n)
                   IN [k \in 1..(hi - i - 1) |-> sw(i, i + 1 + k)]
    IN Flat([i \in 1..(n - 2) |-> from(i)])

\* neighbours on the keyboard of the character c: sequence of characters
RECURSIVE KeyNeighbours(_, _, _)
KeyNeighbours(key, c, from) ==
    LET p == Find(key, <<c>>, from)
    IN IF p = -1 THEN <<>>
       ELSE (IF p > 0 /\ key[p] # 124 THEN <<key[p]>> ELSE <<>>)
            \o (IF p + 1 < Len(key) /\ key[p + 2] # 124 THEN <<key[p + 2]>> ELSE <<>>)
            \o KeyNeighbours(key, c, p + 1)
KeyEdits(w, key) ==
    LET at(i) ==
            LET up == UpperOf(w[i])
                nbs == KeyNeighbours(key, w[i], 0)
            IN (IF up # <<w[i]>> THEN <<Take(w, i - 1) \o up \o Drop(w, i)>> ELSE <<>>)
               \o [k \in 1..Len(nbs) |-> [w EXCEPT ![i] = nbs[k]]]
    IN Flat([i \in 1..Len(w) |-> at(i)])

Removals(w) == IF Len(w) < 2 THEN <<>> ELSE [i \in 1..Len(w) |-> Take(w, i - 1) \o Drop(w, i)]

Insertions(w, try) ==
    Flat([k \in 1..Len(try) |-> [i \in 1..(Len(w) + 1) |-> Take(w, i - 1) \o <<try[k]>> \o Drop(w, i - 1)]])

\* move the character at i by k places
MoveRight(w, i, k) == Take(w, i - 1) \o SubSeq(w, i + 1, i + k) \o <<w[i]>> \o Drop(w, i + k)
MoveLeft(w, i, k) == Take(w, i - k - 1) \o <<w[i]>> \o SubSeq(w, i - k, i - 1) \o Drop(w, i)
Moves(w) ==
    LET n == Len(w)
        right(i) == [k \in 1..(Min2(MaxDistance, n - i) - 1) |-> MoveRight(w, i, k + 1)]
        left(i) == [k \in 1..(Min2(MaxDistance, i - 1) - 1) |-> MoveLeft(w, i, k + 1)]
    IN IF n < 2 THEN <<>>
       ELSE Flat([i \in 1..n |-> right(i)]) \o Flat([i \in 1..n |-> left(n + 1 - i)])

Substitutions(w, try) ==
    LET n == Len(w)
        with(c) == LET is == SelectSeq([i \in 1..n |-> n + 1 - i], LAMBDA i : w[i] # c)
                   IN [k \in 1..Len(is) |-> [w EXCEPT ![is[k]] = c]]
    IN Flat([k \in 1..Len(try) |-> with(try[k])])

\* a pair of characters written twice: remove the second one
Doubles(w) ==
    LET n == Len(w)
        is == SelectSeq([i \in 1..n |-> i], LAMBDA i : i >= 4 /\ w[i - 2] = w[i] /\ w[i - 3] = w[i - 1])
    IN IF n < 5 THEN <<>> ELSE [k \in 1..Len(is) |-> Take(w, is[k] - 2) \o Drop(w, is[k])]

TwoWords(w) == [i \in 1..(Len(w) - 1) |-> <<Take(w, i), Drop(w, i)>>]

\* REP: each replacement, and if it has spaces also its words (three at most)
RepEdits(w, rep) ==
    LET cs == RepCandidates(rep, w)
        at(c) == IF HasChar(c, Space)
                 THEN LET ws == SplitN(c, Space, 2)
                      IN <<One("replchars", c), One("replchars", JoinBy(ws, <<Space>>)),
                           [kind |-> "replchars", ws |-> ws, dash |-> FALSE]>>
                 ELSE <<One("replchars", c)>>
    IN Flat([k \in 1..Len(cs) |-> at(cs[k])])

\* MAP: related characters or groups, the first occurrence of each is replaced, then the following ones
RECURSIVE MapFrom(_, _, _)
MapFrom(w, map, start) ==
    LET others(row, k, pos) ==
            LET js == SelectSeq([j \in 1..Len(row) |-> j], LAMBDA j : row[j] # row[k])
                r(j) == Take(w, pos) \o row[j] \o Drop(w, pos + Len(row[k]))
            IN Flat([x \in 1..Len(js) |-> <<r(js[x])>> \o MapFrom(r(js[x]), map, pos + Len(row[js[x]]))])
        option(row, k) == LET pos == Find(w, row[k], start)
                          IN IF pos = -1 THEN <<>> ELSE others(row, k, pos)
    IN IF start >= Len(w) THEN <<>>
       ELSE Flat([m \in 1..Len(map) |-> Flat([k \in 1..Len(map[m]) |-> option(map[m], k)])])
MapEdits(w, map) == IF Len(w) < 2 \/ map = <<>> THEN <<>> ELSE MapFrom(w, map, 0)

UseDash(d) == HasChar(d.aff.text.TRY, Dash) \/ HasChar(d.aff.text.TRY, 97)

EditsOf(d, w) ==
    LET try == d.aff.text.TRY
        tws == TwoWords(w)
        spaced == Flat([i \in 1..Len(tws) |->
                      <<One("spaceword", JoinBy(tws[i], <<Space>>))>>
                      \o (IF UseDash(d) THEN <<One("spaceword", JoinBy(tws[i], <<Dash>>))>> ELSE <<>>)])
        split == IF d.aff.bool.NOSPLITSUGS THEN <<>>
                 ELSE [i \in 1..Len(tws) |-> [kind |-> "twowords", ws |-> tws[i], dash |-> UseDash(d)]]
    IN TLCEval(<<One("uppercase", Uppered(d.aff.casing, w))>>
       \o RepEdits(w, d.aff.tab.REP)
       \o spaced
       \o OneEach("mapchars", MapEdits(w, d.aff.tab.MAP))
       \o OneEach("swapchar", Swaps(w))
       \o OneEach("longswapchar", LongSwaps(w))
       \o OneEach("badcharkey", KeyEdits(w, d.aff.text.KEY))
       \o OneEach("extrachar", Removals(w))
       \o OneEach("forgotchar", Insertions(w, try))
       \o OneEach("movechar", Moves(w))
       \o OneEach("badchar", Substitutions(w, try))
       \o OneEach("doubletwochars", Doubles(w))
       \o split)
=============================================================================
