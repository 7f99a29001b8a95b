------------------------------ MODULE Similar ------------------------------
(***************************************************************************)
(* Measures of similarity of texts, and the n-gram and phonetic searches.  *)
(***************************************************************************)
EXTENDS Edits

LeftCommon(a, b) ==
    LET n == Min2(Len(a), Len(b))
        diff == {i \in 1..n : a[i] # b[i]}
    IN IF diff = {} THEN n ELSE Min(diff) - 1

CommonPositions(a, b) == Cardinality({i \in 1..Min2(Len(a), Len(b)) : a[i] = b[i]})

\* n-grams of a of size n: how many are in b; weighted: those which are not count -1, at the ends -2
GramCount(a, b, n, weighted) ==
    LET at(i) == IF HasSub(b, SubSeq(a, i, i + n - 1)) THEN 1
                 ELSE IF ~weighted THEN 0
                 ELSE IF i = 1 \/ i + n - 1 = Len(a) THEN 0 - 2 ELSE 0 - 1
    IN FoldLeft(LAMBDA x, i : x + at(i), 0, [i \in 1..(Len(a) - n + 1) |-> i])

RECURSIVE GramSum(_, _, _, _, _)
GramSum(a, b, n, max, weighted) ==
    IF n > max THEN 0
    ELSE LET c == GramCount(a, b, n, weighted)
         IN IF c < 2 /\ ~weighted THEN c ELSE c + GramSum(a, b, n + 1, max, weighted)

\* mode: "longer" (b being longer is worse), "any" (any difference of length is worse), "none"
Ngram(max, a, b, mode, weighted) ==
    IF b = <<>> THEN 0
    ELSE LET s == GramSum(a, b, 1, max, weighted)
             pen == CASE mode = "longer" -> Len(b) - Len(a) - 2
                      [] mode = "any" -> AbsDiff(Len(b), Len(a)) - 2
                      [] OTHER -> 0
         IN IF pen > 0 THEN s - pen ELSE s

\* length of the longest common subsequence, row by row
LcsLen(a, b) ==
    LET n == Len(b)
        row(prev, c) ==
            FoldLeft(LAMBDA r, j : Append(r, IF c = b[j] THEN prev[j] + 1 ELSE Max2(prev[j + 1], r[j])),
                     <<0>>, [j \in 1..n |-> j])
        last == FoldLeft(row, [j \in 1..(n + 1) |-> 0], a)
    IN last[n + 1]

RootScore(w, t) == LET l == Lower(t) IN Ngram(3, w, l, "longer", FALSE) + LeftCommon(w, l)
RoughScore(w, t) == Ngram(Len(w), w, t, "any", FALSE) + LeftCommon(w, t)

\* stem and ph: spellings, whichever is nearer
WordScore(w, x) ==
    FoldLeft(LAMBDA m, t : Max2(m, RootScore(w, t)), RootScore(w, x.stem), x.alt)

Threshold(w) ==
    LET mangled(k) == [i \in 1..Len(w) |-> IF i > k /\ (i - 1 - k) % 4 = 0 THEN 42 ELSE w[i]]
        s(k) == Ngram(Len(w), w, mangled(k), "any", FALSE)
    IN (s(1) + s(2) + s(3)) \div 3 - 1

\* scores are multiplied by 5 where the limit is compared, as MAXDIFF goes by fifths
PreciseScore(w, t, maxdiff, base, phonetic) ==
    LET lcs == LcsLen(w, t)
        big == Ngram(2, w, t, "any", TRUE) + Ngram(2, t, w, "any", TRUE)
        r == 2 * lcs - AbsDiff(Len(w), Len(t)) + LeftCommon(w, t)
             + (IF CommonPositions(w, Lower(t)) > 0 THEN 1 ELSE 0)
             + Ngram(4, w, t, "any", FALSE)
             + big
        fact == IF maxdiff >= 0 THEN 10 - maxdiff ELSE 5
        size == IF phonetic THEN Len(t) ELSE Len(w) + Len(t)
    IN IF Len(w) = Len(t) /\ Len(w) = lcs THEN base + 2000
       ELSE IF 5 * big < size * fact THEN r - 1000 ELSE r

\* forms of a root made with affixes which are at the ends of the misspelled word
RootForms(d, x, w) ==
    LET sfx == SelectSeq(d.aff.sfx, LAMBDA a : a.flag \in x.flags /\ CondSuffix(a.cond, x.stem) /\ EndsWith(w, a.add))
        pfx == SelectSeq(d.aff.pfx, LAMBDA a : a.flag \in x.flags /\ CondPrefix(a.cond, x.stem) /\ StartsWith(w, a.add))
        cut(s) == Take(x.stem, Max2(0, Len(x.stem) - Len(s.strip)))
        \* with both, the stem is cut on both sides
        mid(p, s) == Slice(x.stem, Len(p.strip), Len(x.stem) - Len(s.strip))
        cross(p, s) == IF p.cross /\ s.cross THEN <<p.add \o mid(p, s) \o s.add>> ELSE <<>>
    IN <<x.stem>> \o [i \in 1..Len(sfx) |-> cut(sfx[i]) \o sfx[i].add]
       \o Flat([i \in 1..Len(pfx) |-> Flat([j \in 1..Len(sfx) |-> cross(pfx[i], sfx[j])])])
       \o [i \in 1..Len(pfx) |-> pfx[i].add \o Drop(x.stem, Len(pfx[i].strip))]

MaxRoots == 100
MaxGuesses == 200

\* at most n first elements in the order given
Best(s, n, before(_, _)) == LET r == SortSeq(s, before) IN TLCEval(IF Len(r) > n THEN Take(r, n) ELSE r)

RootBefore(x, y) == IF x.score # y.score THEN x.score > y.score ELSE TextLess(y.stem, x.stem)
GuessBefore(x, y) == IF x.score # y.score THEN x.score > y.score
                     ELSE IF x.cmp # y.cmp THEN TextLess(y.cmp, x.cmp)
                     ELSE TextLess(y.real, x.real)
FinalBefore(x, y) == IF x.fin # y.fin THEN x.fin > y.fin ELSE GuessBefore(x, y)

\* the n-gram candidates in order; w is in lower case
NgramGuesses(d, w) ==
    LET near == SelectSeq(d.roots, LAMBDA x : AbsDiff(Len(x.stem), Len(w)) <= 4)
        scored == TLCEval([i \in 1..Len(near) |-> [score |-> WordScore(w, near[i]), stem |-> near[i].stem, x |-> near[i]]])
        roots == IF Len(scored) <= MaxRoots THEN scored ELSE Best(scored, MaxRoots, RootBefore)
        thr == Threshold(w)
        alts(x) == [i \in 1..Len(x.alt) |-> [score |-> RoughScore(w, x.alt[i]), cmp |-> x.alt[i], real |-> x.stem]]
        forms(x) == LET fs == RootForms(d, x, w)
                    IN [i \in 1..Len(fs) |-> [score |-> RoughScore(w, Lower(fs[i])), cmp |-> fs[i], real |-> fs[i]]]
        guesses == SelectSeq(TLCEval(Flat([i \in 1..Len(roots) |-> alts(roots[i].x) \o forms(roots[i].x)])),
                             LAMBDA g : g.score > thr)
        top == Best(guesses, MaxGuesses, GuessBefore)
        fin == TLCEval([i \in 1..Len(top) |->
                   [score |-> top[i].score, cmp |-> top[i].cmp, real |-> top[i].real,
                    fin |-> PreciseScore(w, Lower(top[i].cmp), d.aff.int.MAXDIFF, top[i].score, d.aff.phone)]])
    IN Best(fin, MaxGuesses, FinalBefore)

\* cut-off of the candidates; known: suggestions so far, in lower case
NgramChosen(gs, known, onlymaxdiff) ==
    LET step(a, g) ==
            IF a.done \/ (a.seen /\ g.fin <= 1000) THEN [a EXCEPT !.done = TRUE]
            ELSE IF g.fin < 0 - 100 /\ (a.found > 0 \/ onlymaxdiff) THEN [a EXCEPT !.done = TRUE]
            ELSE LET seen == a.seen \/ g.fin > 1000 \/ g.fin < 0 - 100
                 IN IF \E k \in known : HasSub(g.real, k) THEN [a EXCEPT !.seen = seen]
                    ELSE [a EXCEPT !.seen = seen, !.found = @ + 1, !.out = Append(@, g.real)]
    IN FoldLeft(step, [done |-> FALSE, seen |-> FALSE, found |-> 0, out |-> <<>>], gs).out

(* --- phonetic ------------------------------------------------------------------- *)
RuleMatchAt(r, w, i) ==   \* at offset i
    /\ r.key = w[i + 1]
    /\ r.start => i = 0
    /\ i + r.n <= Len(w)
    /\ \A k \in 1..r.n : w[i + k] \in r.items[k]
    /\ r.end => r.take = r.n /\ i + r.n = Len(w)
RECURSIVE CodeFrom(_, _, _)
CodeFrom(rules, w, i) ==
    IF i >= Len(w) THEN <<>>
    ELSE LET ms == {k \in 1..Len(rules) : RuleMatchAt(rules[k], w, i)}
         IN IF ms = {} THEN CodeFrom(rules, w, i + 1)
            ELSE LET r == rules[Min(ms)] IN r.repl \o CodeFrom(rules, w, i + r.take)
PhoneticCode(rules, t) == CodeFrom(rules, Upper(t), 0)

PhoneticGuesses(d, word) ==
    LET w == Lower(word)
        code == PhoneticCode(d.aff.tab.PHONE, w)
        near == SelectSeq(d.roots, LAMBDA x : AbsDiff(Len(x.stem), Len(w)) <= 3 /\ WordScore(w, x) > 2)
        scored == TLCEval([i \in 1..Len(near) |->
                     [score |-> 2 * Ngram(3, code, PhoneticCode(d.aff.tab.PHONE, near[i].stem), "longer", FALSE),
                      cmp |-> near[i].stem, real |-> near[i].stem]])
        top == Best(scored, MaxRoots, GuessBefore)
        fin == TLCEval([i \in 1..Len(top) |->
                  LET l == Lower(top[i].real)
                  IN [score |-> top[i].score, cmp |-> top[i].cmp, real |-> top[i].real,
                      fin |-> top[i].score + 2 * LcsLen(w, l) - AbsDiff(Len(w), Len(l)) + LeftCommon(w, l)]])
        r == Best(fin, MaxRoots, FinalBefore)
    IN [i \in 1..Len(r) |-> r[i].real]
=============================================================================
