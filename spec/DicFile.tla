------------------------------ MODULE DicFile ------------------------------
(***************************************************************************)
(* The dic file, and the dictionary value made of both files.              *)
(* A word is [stem, flags, cap, alt, data].  Its data may add to REP.      *)
(***************************************************************************)
EXTENDS AffFile

\* first offset where a tag (space or tab, two word characters, colon) begins, -1 if none
TagAt(t, i) == /\ i + 4 <= Len(t)
               /\ t[i + 1] \in {32, 9}
               /\ IsWordC(t[i + 2]) /\ IsWordC(t[i + 3]) /\ t[i + 4] = 58
TagStart(t) == LET is == {i \in 0..(Len(t) - 4) : TagAt(t, i)} IN IF is = {} THEN 0 - 1 ELSE Min(is)

\* where the morphological data begins: tag or tab, whichever is first; -1 if there is none
DataStart(t) ==
    LET tag == TagStart(t)
        tab == Find(t, <<9>>, 0)
    IN IF tab # -1 /\ (tag <= 0 \/ tag > tab) THEN tab ELSE tag

\* offsets of slashes not preceded by a backslash
Slashes(t) == {i \in 0..(Len(t) - 1) : t[i + 1] = 47 /\ (i = 0 \/ t[i] # 92)}

\* word count on the first line: digits, followed by white space or the end
IsCount(t) ==
    LET n == CHOOSE n \in 0..Len(t) : /\ \A i \in 1..n : IsDecimal(t[i])
                                      /\ n < Len(t) => ~IsDecimal(t[n + 1])
    IN n > 0 /\ (n = Len(t) \/ IsSpaceC(t[n + 1]))

PhTag == <<112, 104>>
\* contents of the data fields: tag -> values; numbers are aliases, expanded at the end
DataFields(t, am) ==
    LET toks == SelectSeq(Tokens(Strip(t)), LAMBDA x : x # <<>>)
        own  == SelectSeq(toks, LAMBDA x : HasChar(x, 58))
        nums == SelectSeq(toks, LAMBDA x : ~HasChar(x, 58) /\ am # <<>> /\ IsAsciiDigits(x))
        more == Flat([i \in DOMAIN nums |-> am[IntOf(nums[i])]])
        at(x) == Find(x, <<58>>, 0)
        all  == SelectSeq(own \o more, LAMBDA x : HasChar(x, 58) /\ at(x) + 1 < Len(x))
        of(tag) == SelectSeq(all, LAMBDA x : Take(x, at(x)) = tag)
    IN TLCEval([tag \in {Take(all[i], at(all[i])) : i \in DOMAIN all} |->
                   LET xs == of(tag) IN [i \in DOMAIN xs |-> Drop(xs[i], Len(tag) + 1)]])

Arrow == <<45, 62>>
PhRep(word, p) ==
    IF p[Len(p)] = 42 THEN RepRow(Take(p, Max2(0, Len(p) - 2)), Take(word, Max2(0, Len(word) - 1)))
    ELSE IF HasSub(p, Arrow) THEN LET i == Find(p, Arrow, 0) IN RepRow(Take(p, i), Drop(p, i + 2))
    ELSE RepRow(p, word)
IsAlt(p) == p[Len(p)] # 42 /\ ~HasSub(p, Arrow)

\* one line: the word and the rows for REP
DicLine(a, t) ==
    LET ds    == DataStart(t)
        body  == IF ds > 0 THEN DropRight(Take(t, ds), {32, 9}) ELSE t
        data  == IF ds > 0 THEN Drop(t, ds) ELSE <<>>
        sl    == Slashes(body)
        split == body[1] # 47 /\ Cardinality(sl) = 1
        pos   == IF split THEN CHOOSE i \in sl : TRUE ELSE 0
        w0    == IF split THEN Take(body, pos) ELSE body
        fl    == IF split THEN Drop(body, pos + 1) ELSE <<>>
        w1    == ReplaceText(w0, <<92, 47>>, <<47>>)
        w     == RemoveChars(w1, a.ctx.ignore)
        fields == TLCEval(DataFields(data, a.tab.AM))
        ph    == IF PhTag \in DOMAIN fields THEN fields[PhTag] ELSE <<>>
    IN [word |-> [stem |-> w, flags |-> ParseFlags(a.ctx, fl), cap |-> Guess(a.casing, w),
                  alt |-> SelectSeq(ph, IsAlt), data |-> fields],
        low  |-> IF Guess(a.casing, w) = "NO" THEN <<w>> ELSE Lowerings(a.casing, w),
        rep  |-> [i \in DOMAIN ph |-> PhRep(w, ph[i])]]

ReadDic(a, bytes) ==
    LET phys == TLCEval(PhysLines(bytes))
        txts == TLCEval([n \in DOMAIN phys |-> LineText(a.ctx.enc, phys, n)])
        ns   == SelectSeq([n \in DOMAIN phys |-> n],
                    LAMBDA n : txts[n] # <<>> /\ ~(n = 1 /\ IsCount(txts[n])))
    IN TLCEval([i \in DOMAIN ns |-> DicLine(a, txts[ns[i]])])

IndexBy(n, keys) ==   \* keys[i]: set of keys of item i
    LET all == UNION {keys[i] : i \in 1..n}
    IN TLCEval([k \in all |-> SelectSeq([i \in 1..n |-> i], LAMBDA i : k \in keys[i])])

\* the dictionary value
Load(affbytes, dicbytes) ==
    LET a  == TLCEval(ReadAff(affbytes))
        ls == ReadDic(a, dicbytes)
        n  == Len(ls)
        words == TLCEval([i \in 1..n |-> ls[i].word])
        rep == TLCEval(a.tab.REP \o Flat([i \in 1..n |-> ls[i].rep]))
        bad == {a.flag.FORBIDDENWORD, a.flag.NOSUGGEST, a.flag.ONLYINCOMPOUND}
    IN [aff |-> [a EXCEPT !.tab.REP = rep],
        words |-> words,
        index |-> IndexBy(n, TLCEval([i \in 1..n |-> {words[i].stem}])),
        lowindex |-> IndexBy(n, TLCEval([i \in 1..n |-> Range1(ls[i].low)])),
        roots |-> TLCEval(SelectSeq(words, LAMBDA w : w.flags \cap bad = {}))]

Homonyms(d, s) == IF s \in DOMAIN d.index THEN d.index[s] ELSE <<>>
LowHomonyms(d, s) == IF s \in DOMAIN d.lowindex THEN d.lowindex[s] ELSE <<>>
HasFlag(d, s, f) == LET h == Homonyms(d, s) IN \E i \in DOMAIN h : f \in d.words[h[i]].flags
AllHaveFlag(d, s, f) == LET h == Homonyms(d, s)
                        IN h # <<>> /\ \A i \in DOMAIN h : f \in d.words[h[i]].flags
=============================================================================
