-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The listed properties as laws about the specification, in words of      *)
(* their own: what can be built from the entries going forward (instead of *)
(* taking words apart), sets of cuts (instead of recursive search),        *)
(* writings of an entry (instead of variants of a word), and so on.        *)
(*                                                                         *)
(* A law takes a dictionary value and a finite set of words and gives the  *)
(* words for which it fails.  MC checks them for all the combinations of   *)
(* a menu of dictionary parts.                                             *)
(***************************************************************************)
EXTENDS Judgements

(* --- C01: forms built from entries ------------------------------------- *)
NoAffix == [flag |-> <<>>, cross |-> TRUE, strip |-> <<>>, add |-> <<>>, flags |-> {}]
Sfx(d, i) == IF i = 0 THEN NoAffix ELSE d.aff.sfx[i]
Pfx(d, i) == IF i = 0 THEN NoAffix ELSE d.aff.pfx[i]

\* texts are wrapped: a set with one text, or the empty set
WithSuffix(t, x) == IF EndsWith(t, x.strip) /\ CondSuffix(x.cond, t)
                    THEN {Take(t, Len(t) - Len(x.strip)) \o x.add} ELSE {}
WithPrefix(t, x) == IF StartsWith(t, x.strip) /\ CondPrefix(x.cond, t)
                    THEN {x.add \o Drop(t, Len(x.strip))} ELSE {}
MaybeSuffix(d, ts, i) == IF i = 0 THEN ts ELSE UNION {WithSuffix(t, d.aff.sfx[i]) : t \in ts}
MaybePrefix(d, ts, i) == IF i = 0 THEN ts ELSE UNION {WithPrefix(t, d.aff.pfx[i]) : t \in ts}

\* choices of affixes [s, s2, p, p2] a word's flags allow, s and p being next to the stem
AffixChoices(d, w) ==
    {c \in [s : 0..Len(d.aff.sfx), s2 : 0..Len(d.aff.sfx), p : 0..Len(d.aff.pfx), p2 : 0..Len(d.aff.pfx)] :
        LET all == w.flags \cup Sfx(d, c.s).flags \cup Pfx(d, c.p).flags
        IN /\ c.s = 0 => c.s2 = 0
           /\ c.p = 0 => c.p2 = 0
           /\ c.p2 # 0 => d.aff.bool.COMPLEXPREFIXES /\ Pfx(d, c.p2).flag \in Pfx(d, c.p).flags
           /\ c.s2 # 0 => Sfx(d, c.s2).flag \in Sfx(d, c.s).flags
           /\ c.s # 0 => Sfx(d, c.s).flag \in all
           /\ c.p # 0 => Pfx(d, c.p).flag \in all
           /\ c.s # 0 /\ c.p # 0 => Pfx(d, c.p).cross /\ Sfx(d, c.s).cross /\ Sfx(d, c.s2).cross}

UsedAffixes(d, c) == {Sfx(d, i) : i \in {c.s, c.s2} \ {0}} \cup {Pfx(d, i) : i \in {c.p, c.p2} \ {0}}

AffixesFit(d, w, c) ==
    LET F == d.aff.flag
        used == UsedAffixes(d, c)
    IN /\ F.NEEDAFFIX # <<>> => IF used = {} THEN F.NEEDAFFIX \notin w.flags
                                ELSE \E x \in used : F.NEEDAFFIX \notin x.flags
       /\ F.CIRCUMFIX # <<>> => (F.CIRCUMFIX \in Sfx(d, c.s).flags) = (F.CIRCUMFIX \in Pfx(d, c.p).flags)

AllFlags(d, w, c) == w.flags \cup Sfx(d, c.s).flags \cup Pfx(d, c.p).flags

Built(d, w, c) ==
    MaybePrefix(d, MaybePrefix(d, MaybeSuffix(d, MaybeSuffix(d, {w.stem}, c.s), c.s2), c.p), c.p2)

\* everything the entries can be made into on their own
FormsBuilt(d) ==
    TLCEval(UNION {UNION {IF AffixesFit(d, w, c) /\ d.aff.flag.ONLYINCOMPOUND \notin AllFlags(d, w, c)
                          THEN Built(d, w, c) ELSE {} : c \in AffixChoices(d, w)} : w \in Range1(d.words)})

C01Fails(d, W) == LET built == FormsBuilt(d) IN {t \in W : LookupWord(d, t) # (t \in built)}

(* --- C02, C03: compounds as sets of cuts -------------------------------- *)
\* pieces of a text cut at the offsets of cuts
PiecesOf(t, cuts) ==
    LET s == SetToSortSeq(cuts \cup {0, Len(t)}, LAMBDA a, b : a < b)
    IN [i \in 1..(Len(s) - 1) |-> Slice(t, s[i], s[i + 1])]

PositionFlag(d, pos) == CASE pos = "B" -> d.aff.flag.COMPOUNDBEGIN [] pos = "M" -> d.aff.flag.COMPOUNDMIDDLE
                          [] pos = "E" -> d.aff.flag.COMPOUNDEND

\* may the affixes be used in a part at this position?
AffixesAllowed(d, c, pos) ==
    LET permit == d.aff.flag.COMPOUNDPERMITFLAG
        forbid == d.aff.flag.COMPOUNDFORBIDFLAG
        ok(x, free) == /\ forbid # <<>> => forbid \notin x.flags
                       /\ free \/ (permit # <<>> /\ permit \in x.flags)
    IN /\ \A i \in {c.s, c.s2} \ {0} : ok(Sfx(d, i), pos = "E")
       /\ \A i \in {c.p, c.p2} \ {0} : ok(Pfx(d, i), pos = "B")

\* [text, part]: the parts which may stand at a position
PartsBuilt(d, pos) ==
    TLCEval(UNION {UNION {
        LET all == AllFlags(d, w, c)
        IN IF /\ AffixesFit(d, w, c) /\ AffixesAllowed(d, c, pos)
              /\ \/ d.aff.flag.COMPOUNDFLAG # <<>> /\ d.aff.flag.COMPOUNDFLAG \in all
                 \/ PositionFlag(d, pos) # <<>> /\ PositionFlag(d, pos) \in all
           THEN {[text |-> t, stem |-> w.stem, flags |-> all, base |-> UsedAffixes(d, c) = {}] : t \in Built(d, w, c)}
           ELSE {} : c \in AffixChoices(d, w)} : w \in Range1(d.words)})

\* parts whose text is the piece; or the piece with its last letter doubled, if the next one begins with it
PiecesAs(d, parts, piece, next) ==
    {x \in parts : x.text = piece}
    \cup IF d.aff.bool.SIMPLIFIEDTRIPLE /\ next # <<>> /\ piece[Len(piece)] = next[1]
         THEN {[x EXCEPT !.text = piece] : x \in {y \in parts : y.text = Append(piece, piece[Len(piece)])}} ELSE {}

RECURSIVE SequencesOf(_)
SequencesOf(sets) == IF sets = <<>> THEN {<<>>}
                     ELSE {<<x>> \o r : x \in Head(sets), r \in SequencesOf(Tail(sets))}

CompoundReadings(d, t, B, M, E) ==
    LET min == d.aff.int.COMPOUNDMIN
        max == d.aff.int.COMPOUNDWORDMAX
        good == {cuts \in SUBSET (1..(Len(t) - 1)) :
                    /\ cuts # {}
                    /\ max > 0 => Cardinality(cuts) + 1 <= max
                    /\ LET ps == PiecesOf(t, cuts) IN \A i \in 1..Len(ps) : Len(ps[i]) >= min}
        reads(cuts) ==
            LET ps == PiecesOf(t, cuts)
                n == Len(ps)
            IN SequencesOf([i \in 1..n |-> PiecesAs(d, IF i = 1 THEN B ELSE IF i = n THEN E ELSE M, ps[i],
                                                     IF i = n THEN <<>> ELSE ps[i + 1])])
    IN UNION {reads(cuts) : cuts \in good}

FlagsCompound(d) == d.aff.flag.COMPOUNDBEGIN # <<>> \/ d.aff.flag.COMPOUNDFLAG # <<>>

CompoundFails(d, W, vetoed(_, _)) ==
    LET built == FormsBuilt(d)
        B == PartsBuilt(d, "B")
        M == PartsBuilt(d, "M")
        E == PartsBuilt(d, "E")
    IN {t \in W : LookupWord(d, t) #
            (t \in built \/ (FlagsCompound(d) /\ \E r \in CompoundReadings(d, t, B, M, E) : ~vetoed(r, built)))}

\* no vetoing options; an entry of two words always is one
TwoWordEntry(r, forms) == \E i \in 1..(Len(r) - 1) : r[i].text \o <<Space>> \o r[i + 1].text \in forms
C02Fails(d, W) == CompoundFails(d, W, LAMBDA r, forms : \/ TwoWordEntry(r, forms)
                                                        \/ \E i \in 1..(Len(r) - 1) : HasFlag(d, r[i].text, d.aff.flag.COMPOUNDFORBIDFLAG))

\* the vetoes, for all pairs of neighbours; words of the law are in lower case
PairsOf(r) == {<<r[i], r[i + 1]>> : i \in 1..(Len(r) - 1)}
AllReplacements(t, pat, repl) ==
    {Take(t, i) \o repl \o Drop(t, i + Len(pat)) : i \in {j \in 0..(Len(t) - Len(pat)) : OccursAt(t, pat, j)}}
VetoApplies(d, r, forms) ==
    LET B == d.aff.bool
        F == d.aff.flag
        n == Len(r)
    IN \/ \E q \in PairsOf(r) : q[1].text \o <<Space>> \o q[2].text \in forms
       \/ F.COMPOUNDFORBIDFLAG # <<>> /\ \E i \in 1..(n - 1) : \E w \in Range1(d.words) :
              w.stem = r[i].text /\ F.COMPOUNDFORBIDFLAG \in w.flags
       \/ F.FORCEUCASE # <<>> /\ \E w \in Range1(d.words) : w.stem = r[n].text /\ F.FORCEUCASE \in w.flags
       \/ B.CHECKCOMPOUNDDUP /\ r[n].text = r[n - 1].text
       \/ B.CHECKCOMPOUNDCASE /\ \E q \in PairsOf(r) : LET a == q[1].text[Len(q[1].text)] b == q[2].text[1]
                                                       IN Dash \notin {a, b} /\ (~IsLowerC(a) \/ ~IsLowerC(b))
       \/ B.CHECKCOMPOUNDTRIPLE /\ \E q \in PairsOf(r) :
              LET t == q[1].text \o q[2].text
                  m == Len(q[1].text)
              IN \E i \in 1..(Len(t) - 2) : i <= m /\ i + 2 > m /\ t[i] = t[i + 1] /\ t[i + 1] = t[i + 2]
       \/ B.CHECKCOMPOUNDREP /\ \E q \in PairsOf(r) : \E k \in DOMAIN d.aff.tab.REP :
              AllReplacements(q[1].text \o q[2].text, d.aff.tab.REP[k].pat.lit, d.aff.tab.REP[k].repl) \cap forms # {}
       \/ \E k \in DOMAIN d.aff.tab.CHECKCOMPOUNDPATTERN : \E q \in PairsOf(r) :
              LET p == d.aff.tab.CHECKCOMPOUNDPATTERN[k]
              IN /\ \E a \in 0..Len(q[1].stem) : Drop(q[1].stem, a) = p.left.stem
                 /\ \E a \in 0..Len(q[2].stem) : Take(q[2].stem, a) = p.right.stem
                 /\ p.left.flag = <<>> \/ p.left.flag \in q[1].flags
                 /\ p.right.flag = <<>> \/ p.right.flag \in q[2].flags
                 /\ p.left.affixed => ~q[1].base
                 /\ p.right.affixed => ~q[2].base
C03Fails(d, W) == CompoundFails(d, {t \in W : Guess(d.aff.casing, t) = "NO"}, LAMBDA r, forms : VetoApplies(d, r, forms))

(* --- C04: the language of the rules -------------------------------------- *)
\* flag sequences of at most n flags a rule stands for
RECURSIVE RuleLanguage(_, _)
RuleLanguage(rule, n) ==
    IF rule = <<>> THEN {<<>>}
    ELSE LET rest == RuleLanguage(Tail(rule), n)
             times == CASE Head(rule).q = "1" -> {1} [] Head(rule).q = "?" -> {0, 1} [] Head(rule).q = "*" -> 0..n
         IN {s \in {[i \in 1..k |-> Head(rule).flag] \o r : k \in times, r \in rest} : Len(s) <= n}

C04Fails(d, W) ==
    LET built == FormsBuilt(d)
        stems == {w.stem : w \in Range1(d.words)}
        most == Max({Len(t) : t \in W})
        lang == TLCEval(UNION {RuleLanguage(d.aff.tab.COMPOUNDRULE[k], most) : k \in DOMAIN d.aff.tab.COMPOUNDRULE})
        max == d.aff.int.COMPOUNDWORDMAX
        fits(ps, s) == /\ Len(s) = Len(ps)
                       /\ \A i \in 1..Len(ps) : \E w \in Range1(d.words) : w.stem = ps[i] /\ s[i] \in w.flags
        comp(t) == \E cuts \in SUBSET (1..(Len(t) - 1)) :
                      /\ cuts # {}
                      /\ max > 0 => Cardinality(cuts) < max
                      /\ LET ps == PiecesOf(t, cuts)
                         IN /\ \A i \in 1..Len(ps) : ps[i] \in stems /\ Len(ps[i]) >= d.aff.int.COMPOUNDMIN
                            /\ ~ \E i \in 1..(Len(ps) - 1) : ps[i] \o <<Space>> \o ps[i + 1] \in built
                            \* one entry is chosen for each part, then one of its flags
                            /\ \E s \in lang : fits(ps, s)
    IN {t \in W : LookupWord(d, t) # (t \in built \/ comp(t))}

(* --- C05, C06: the writings of an entry ----------------------------------- *)
\* dictionaries without affixes and compounds; letters with one upper and one lower form
Writings(d, w) ==
    LET keep == d.aff.flag.KEEPCASE # <<>> /\ d.aff.flag.KEEPCASE \in w.flags
        k == d.aff.casing
        cap == Guess(k, w.stem)
        up == Uppered(k, w.stem)
        first == Uppered(k, Take(w.stem, 1)) \o Tail(w.stem)
        all == {w.stem}
               \cup {up}
               \cup (IF cap \in {"NO", "HUH"} THEN {first} ELSE {})
    IN IF keep THEN {t \in all : Guess(k, t) = cap} ELSE all

C05Fails(d, W) ==
    LET acc == TLCEval(UNION {Writings(d, w) : w \in Range1(d.words)})
    IN {t \in W : t # <<>> /\ LookupWord(d, t) # (t \in acc)}

\* every way to write the sharp s of a capitalised entry: as SS, or as one of the letters
CapSharpS == 7838
SharpUp(t, letters) ==
    LET at == {i \in 1..Len(t) : t[i] = SharpS}
        with(c) == Flat([i \in 1..Len(t) |-> IF i \in at /\ c[i] # 0 THEN <<c[i]>> ELSE UpperOf(t[i])])
    IN {with(c) : c \in [at -> letters \cup {0}]}
\* entries not beginning with sharp s; words of the law: in lower case, capitalised or in capitals
GermanWritings(d, w) ==
    LET keep == d.aff.flag.KEEPCASE # <<>> /\ d.aff.flag.KEEPCASE \in w.flags
        sharp == HasChar(w.stem, SharpS)
        first == Upper(Take(w.stem, 1)) \o Tail(w.stem)
        caps == SharpUp(w.stem, IF keep THEN {CapSharpS} ELSE {SharpS, CapSharpS})
    IN {w.stem} \cup (IF keep /\ ~sharp THEN {}
                      ELSE (IF keep /\ Guess("de", first) = "ALL" THEN {} ELSE {first}) \cup caps)
TurkicWritings(w) == {w.stem, Uppered("tr", Take(w.stem, 1)) \o Tail(w.stem), Uppered("tr", w.stem)}
C06Fails(d, W) ==
    LET acc == TLCEval(UNION {IF d.aff.casing = "de" THEN GermanWritings(d, w)
                              ELSE IF d.aff.casing = "tr" THEN TurkicWritings(w)
                              ELSE Writings(d, w) : w \in Range1(d.words)})
        plain == {t \in W : /\ t # <<>> /\ Guess(d.aff.casing, t) \in {"NO", "INIT", "ALL"}
                           /\ d.aff.casing = "std" => ~HasChar(t, LatI) /\ ~HasChar(t, DotI)}
    IN {t \in plain : LookupWord(d, t) # (t \in acc)}

(* --- C07: forbidden and hidden entries -------------------------------------- *)
C07Fails(d, W, S) ==
    LET F == d.aff.flag
        forbidden(w) == F.FORBIDDENWORD # <<>> /\ F.FORBIDDENWORD \in w.flags
        hidden(w) == F.NOSUGGEST # <<>> /\ F.NOSUGGEST \in w.flags
        allof(t, p(_)) == /\ \E w \in Range1(d.words) : w.stem = t
                          /\ \A w \in Range1(d.words) : w.stem = t => p(w)
        \* a hidden word may still be a compound of others
        shown(ix) == TLCEval([k \in DOMAIN ix |-> SelectSeq(ix[k], LAMBDA i : ~hidden(d.words[i]))])
        less == [d EXCEPT !.index = shown(@), !.lowindex = shown(@)]
    IN {t \in W : allof(t, forbidden) /\ LookupWord(d, t)}
       \cup {t \in S : \E i \in 1..Len(SuggestTexts(d, t)) :
                \E w \in Range1(d.words) : w.stem = SuggestTexts(d, t)[i] /\ forbidden(w)}
       \cup {t \in S : ~HasChar(t, Dash) /\ \E i \in 1..Len(SuggestTexts(d, t)) : 
                LET x == SuggestTexts(d, t)[i] IN allof(x, hidden) /\ ~LookupWord(less, x)}

(* --- C08: conversion and breaking --------------------------------------------- *)
\* Places of the patterns as sets of [from, to]; a word is good if good pieces are left after taking away
\* some places, none of which overlap, all of which were possible in what was left at its right side.
PlacesIn(d, t) ==
    {[from |-> i, to |-> i + Len(p.lit), bol |-> p.bol, eol |-> p.eol] :
        <<p, i>> \in {<<q, j>> \in Range1(d.aff.tab.BREAK) \X (0..Len(t)) : OccursAt(t, q.lit, j)}}
\* (patterns of one character only: their places never overlap)
BrokenGood(d, t) ==
    \E cuts \in SUBSET PlacesIn(d, t) :
        /\ \A x, y \in cuts : x # y => x.to <= y.from \/ y.to <= x.from
        /\ Cardinality(cuts) <= MaxCuts
        /\ LET starts == {0} \cup {x.to : x \in cuts}
               startof(x) == Max({s \in starts : s <= x.from})
               endof(s) == LET e == {x.from : x \in {y \in cuts : y.from >= s}} IN IF e = {} THEN Len(t) ELSE Min(e)
           IN /\ \A x \in cuts : /\ x.bol => x.from = startof(x)
                                 /\ x.eol => x.to = Len(t)
                                 /\ (~x.bol /\ ~x.eol) => x.from > startof(x) /\ x.to < Len(t)
              /\ \A s \in starts : LET p == Slice(t, s, endof(s)) IN p = <<>> \/ GoodWord(d, p)
C08Fails(d, W) ==
    {t \in W : LET c == RemoveChars(Convert(d.aff.tab.ICONV, t), d.aff.ignore)
               IN LookupWord(d, t) # (c = <<>> \/ IsNumber(c) \/ BrokenGood(d, c))}

(* --- C11, C12: single edits --------------------------------------------------- *)
\* relations between the misspelling w and the correct v
Swapped(w, v) == Len(w) = Len(v) /\ \E i, j \in 1..Len(w) :
                    i < j /\ j - i <= MaxDistance /\ v = [w EXCEPT ![i] = w[j], ![j] = w[i]]
ExtraLetter(w, v) == Len(w) > 1 /\ Len(w) = Len(v) + 1 /\ \E i \in 1..Len(w) : v = Take(w, i - 1) \o Drop(w, i)
MissingLetter(d, w, v) == Len(v) = Len(w) + 1 /\ \E i \in 1..Len(v) : HasChar(d.aff.text.TRY, v[i]) /\ w = Take(v, i - 1) \o Drop(v, i)
WrongLetter(d, w, v) == Len(w) = Len(v) /\ \E i \in 1..Len(w) : HasChar(d.aff.text.TRY, v[i]) /\ w # v /\ v = [w EXCEPT ![i] = v[i]]
MovedLetter(w, v) == Len(w) = Len(v) /\ \E i, j \in 1..Len(w) :
                        /\ AbsDiff(i, j) \in 2..MaxDistance
                        /\ Take(w, i - 1) \o Drop(w, i) = Take(v, j - 1) \o Drop(v, j) /\ w[i] = v[j]
NeighbourKey(d, w, v) ==
    Len(w) = Len(v) /\ \E i \in 1..Len(w) : v = [w EXCEPT ![i] = v[i]] /\
        \E k \in 1..(Len(d.aff.text.KEY) - 1) : {d.aff.text.KEY[k], d.aff.text.KEY[k + 1]} = {w[i], v[i]} /\ w[i] # v[i] /\ 124 \notin {w[i], v[i]}
DoubledPair(w, v) == Len(w) >= 5 /\ Len(w) = Len(v) + 2 /\
    \E i \in 1..(Len(w) - 3) : w[i] = w[i + 2] /\ w[i + 1] = w[i + 3] /\ v = Take(w, i + 1) \o Drop(w, i + 3)
OneEdit(d, w, v) ==
    \/ Swapped(w, v) \/ ExtraLetter(w, v) \/ MissingLetter(d, w, v) \/ WrongLetter(d, w, v)
    \/ MovedLetter(w, v) \/ NeighbourKey(d, w, v) \/ DoubledPair(w, v)

EditKinds == {"swapchar", "longswapchar", "badcharkey", "extrachar", "forgotchar", "movechar", "badchar", "doubletwochars"}
KindOrder == <<"uppercase", "replchars", "spaceword", "mapchars", "swapchar", "longswapchar", "badcharkey", "extrachar",
               "forgotchar", "movechar", "badchar", "doubletwochars", "twowords">>
RankOf(k) == CHOOSE i \in DOMAIN KindOrder : KindOrder[i] = k

\* misspellings in lower case, dictionaries without compounds, OCONV, REP, MAP and two-word entries
C12Fails(d, S, V) ==
    LET good == {v \in V : GoodAsIs(d, v, FALSE, "affixed")}
        bad(w) == LET s == Suggestions(d, w)
                      edits == SelectSeq(s, LAMBDA x : x.kind \in Range1(KindOrder))
                      texts == {s[i].text : i \in 1..Len(s)}
                  IN \/ Len(edits) < MaxEdits /\ \E v \in good : v # w /\ OneEdit(d, w, v) /\ v \notin texts
                     \/ \E i \in 1..Len(edits) : /\ edits[i].kind \in EditKinds
                                                 /\ Len(edits[i].text) <= Max({Len(v) : v \in V})
                                                 /\ edits[i].text \in V
                                                 /\ ~OneEdit(d, w, edits[i].text)
                                                 /\ edits[i].text # w
                                                 /\ ~(Len(w) \in {4, 5} /\ edits[i].kind = "swapchar")
                     \/ \E i \in 1..(Len(edits) - 1) : RankOf(edits[i].kind) > RankOf(edits[i + 1].kind)
    IN {w \in S : bad(w)}

C11Fails(d, S) == {w \in S : SoundReason(d, w, SuggestTexts(d, w)) # <<>>}

(* --- C13: REP ------------------------------------------------------------------- *)
\* for rows without anchors and spaces: a replacement at any place which is not inside an earlier occurrence
C13Fails(d, S) ==
    LET rows == d.aff.tab.REP
        bad(w) == LET s == Suggestions(d, w)
                      texts == {s[i].text : i \in 1..Len(s)}
                      reps == SelectSeq(s, LAMBDA x : x.kind = "replchars")
                      cands == UNION {AllReplacements(w, rows[k].pat.lit, rows[k].repl) : k \in DOMAIN rows}
                  IN \/ \E i \in 1..Len(reps) : reps[i].text \notin cands
                     \/ \E k \in DOMAIN rows : Len(rows[k].pat.lit) = 1 /\ Len(w) > 1 /\ \E c \in AllReplacements(w, rows[k].pat.lit, rows[k].repl) :
                            GoodAsIs(d, c, FALSE, "affixed") /\ c \notin texts
                     \/ reps # <<>> /\ \E i \in 1..Len(s) : s[i].kind \in {"ngram", "phonet", "dashes"}
    IN {w \in S : bad(w)}

(* --- C14: limits ------------------------------------------------------------------ *)
C14Fails(d, S) ==
    LET bad(w) == LET s == Suggestions(d, w)
                      of(K) == SelectSeq(s, LAMBDA x : x.kind \in K)
                      vs == Len(Corrections(d.aff.casing, w).vs)
                      sim == of({"ngram", "phonet"})
                  IN \/ \E i, j \in 1..Len(s) : i < j /\ s[i].text = s[j].text
                     \/ Len(of({"ngram"})) > Max2(0, d.aff.int.MAXNGRAMSUGS)
                     \/ Len(of({"phonet"})) > MaxPhonetic
                     \/ Len(of(Range1(KindOrder))) > vs * (MaxEdits + Max2(0, d.aff.int.MAXCPDSUGS))
                     \/ \E i, j \in 1..Len(s) : i < j /\ s[j].kind \in {"ngram", "phonet"} /\ HasSub(Lower(s[j].text), Lower(s[i].text))
    IN {w \in S : bad(w)}

(* --- C15: capitalization of suggestions --------------------------------------------- *)
\* dictionaries without KEEPCASE, forbidden words and OCONV; ASCII letters
C15Fails(d, S) ==
    LET bad(w) == LET cap == Guess(d.aff.casing, w)
                      s == SuggestTexts(d, w)
                  IN \E i \in 1..Len(s) : \/ cap = "ALL" /\ Upper(s[i]) # s[i]
                                          \/ cap \in {"INIT", "HUHINIT"} /\ Upper(Take(s[i], 1)) # Take(s[i], 1)
    IN {w \in S : ~HasChar(w, Dash) /\ bad(w)}

(* --- C16, C17: measures ---------------------------------------------------------------- *)
IsSubseq(a, b) == \E is \in SUBSET (1..Len(b)) :
    /\ Cardinality(is) = Len(a)
    /\ LET s == SetToSortSeq(is, LAMBDA x, y : x < y) IN \A k \in 1..Len(a) : a[k] = b[s[k]]
SubseqsOf(a) == {LET s == SetToSortSeq(is, LAMBDA x, y : x < y) IN [k \in 1..Len(s) |-> a[s[k]]] : is \in SUBSET (1..Len(a))}
C16Fails(d, S, W) ==
    LET wrong(a, b) == \/ LcsLen(a, b) # Max({Len(x) : x \in SubseqsOf(a) \cap SubseqsOf(b)})
                       \/ LeftCommon(a, b) # Max({k \in 0..Min2(Len(a), Len(b)) : Take(a, k) = Take(b, k)})
        \* kept in order of score, nothing better left out (as far as inclusion and limits allow)
        order(w) == LET g == NgramGuesses(d, Lower(w))
                    IN \E i \in 1..(Len(g) - 1) : g[i].fin < g[i + 1].fin
    IN {a \in S : \E b \in W : a # <<>> /\ b # <<>> /\ wrong(a, b)} \cup {w \in S : order(w)}

\* codes: a rule at each position, by a definition which goes through the positions only
C17Fails(d, S) ==
    {w \in S : LET s == Suggestions(d, w)
                   ph == SelectSeq(s, LAMBDA x : x.kind = "phonet")
               IN \/ Len(ph) > MaxPhonetic
                  \/ \E i \in 1..Len(ph) : ~ \E k \in 1..Len(d.roots) : Lower(d.roots[k].stem) = Lower(ph[i].text)
                  \/ \E i, j \in 1..Len(s) : i < j /\ s[i].kind = "phonet" /\ s[j].kind # "phonet"}

(* --- C18: hyphenated words ----------------------------------------------------------------- *)
C18Fails(d, S) ==
    LET bad(w) == LET s == Suggestions(d, w)
                      ds1 == SelectSeq(s, LAMBDA x : x.kind = "dashes")
                      parts(t) == SplitN(t, Dash, 0 - 1)
                      differ(t) == LET a == parts(w) b == parts(t)
                                   IN IF Len(a) # Len(b) THEN {} ELSE {i \in 1..Len(a) : a[i] # b[i]}
                  IN \/ \E i \in 1..Len(ds1) : ~LookupWord(d, ds1[i].text)
                     \/ \E i, j \in 1..Len(ds1) : Len(parts(ds1[i].text)) = Len(parts(w)) /\ Len(parts(ds1[j].text)) = Len(parts(w))
                                                  /\ (Cardinality(differ(ds1[i].text)) # 1 \/ differ(ds1[i].text) # differ(ds1[j].text))
                     \/ \E i, j \in 1..Len(s) : i < j /\ s[j].kind = "dashes" /\ s[i].kind \in {"ngram", "phonet"}
                     \/ \E i \in 1..Len(s) : s[i].kind = "dashes" /\ \E j \in 1..Len(s) :
                            j # i /\ (s[j].text = s[i].text \/ (s[j].kind \in Range1(KindOrder) /\ HasChar(s[j].text, Dash)))
    IN {w \in S : bad(w)}

(* --- C21: two words -------------------------------------------------------------------------- *)
\* dictionaries without compounds, OCONV and REP, misspellings in lower case
C21Fails(d, S) ==
    LET good(t) == GoodAsIs(d, t, FALSE, "affixed")
        dash == HasChar(d.aff.text.TRY, Dash) \/ HasChar(d.aff.text.TRY, 97)
        joined(w, i, c) == Take(w, i) \o <<c>> \o Drop(w, i)
        bad(w) ==
            LET s == Suggestions(d, w)
                tw == SelectSeq(s, LAMBDA x : x.kind = "twowords")
                sp == SelectSeq(s, LAMBDA x : x.kind = "spaceword")
                edits == SelectSeq(s, LAMBDA x : x.kind \in Range1(KindOrder))
                want == Flat([i \in 1..(Len(w) - 1) |->
                            IF ~d.aff.bool.NOSPLITSUGS /\ good(Take(w, i)) /\ good(Drop(w, i))
                            THEN <<joined(w, i, Space)>> \o (IF dash THEN <<joined(w, i, Dash)>> ELSE <<>>) ELSE <<>>])
                listed == {i \in 1..(Len(w) - 1) : good(joined(w, i, Space)) \/ (dash /\ good(joined(w, i, Dash)))}
            IN IF listed # {} /\ ~ \E i \in 1..Len(s) : s[i].kind \in {"uppercase", "replchars"}
               THEN Len(sp) # 1 \/ Len(s) # 1
               ELSE Len(edits) < MaxEdits /\ [i \in 1..Len(tw) |-> tw[i].text] # want
    IN {w \in S : bad(w)}

(* --- C20: every word has an answer ------------------------------------------------------------- *)
C20Fails(d, W, S) == {t \in W : LookupWord(d, t) \notin BOOLEAN} \cup {t \in S : Len(SuggestTexts(d, t)) < 0}

(* --- C22: readings built from the entries -------------------------------------------------------- *)
BuiltReadings(d, t) ==
    UNION {UNION {IF /\ AffixesFit(d, w, c) /\ d.aff.flag.ONLYINCOMPOUND \notin AllFlags(d, w, c)
                     /\ t \in Built(d, w, c)
                  THEN {[text |-> t, stem |-> w.stem, pre |-> UsedOf(d.aff.pfx, <<c.p2, c.p>>), suf |-> UsedOf(d.aff.sfx, <<c.s2, c.s>>),
                         entry |-> <<ShownEntry(w)>>]}
                  ELSE {} : c \in AffixChoices(d, w)} : w \in Range1(d.words)}
AllReadings == [cap |-> TRUE, nosug |-> TRUE, aff |-> TRUE, comp |-> TRUE]

\* words in lower case, dictionaries without rules and forbidden words
C22Fails(d, W) ==
    LET built == FormsBuilt(d)
        B == PartsBuilt(d, "B")
        M == PartsBuilt(d, "M")
        E == PartsBuilt(d, "E")
        plain(c) == [i \in 1..Len(c) |-> [text |-> c[i].text, stem |-> c[i].stem, base |-> c[i].base]]
        told(r) == [i \in 1..Len(r.parts) |-> [text |-> r.parts[i].text, stem |-> r.parts[i].stem,
                                              base |-> DOMAIN r.parts[i].pre = {} /\ DOMAIN r.parts[i].suf = {}]]
        bad(t) == LET rs == WordReadings(d, t, AllReadings)
                      affixed == {r.parts[1] : r \in {x \in rs : ~x.comp}}
                      comps == {told(r) : r \in {x \in rs : x.comp}}
                  IN \/ affixed # BuiltReadings(d, t)
                     \/ comps # (IF FlagsCompound(d) THEN {plain(c) : c \in {x \in CompoundReadings(d, t, B, M, E) : ~VetoApplies(d, x, built)}}
                                 ELSE {})
                     \/ (rs # {}) # GoodWord(d, t)
    IN {t \in W : Guess(d.aff.casing, t) = "NO" /\ bad(t)}

(* --- C23: options of the checker ------------------------------------------------------------------- *)
\* dictionaries without forbidden words and words with spaces
C23Fails(d, W) ==
    LET opt(c, n) == [cap |-> c, nosug |-> n]
        kept == {i \in 1..Len(d.words) : d.aff.flag.NOSUGGEST = <<>> \/ d.aff.flag.NOSUGGEST \notin d.words[i].flags}
        of(ix) == TLCEval([k \in DOMAIN ix |-> SelectSeq(ix[k], LAMBDA i : i \in kept)])
        less == [d EXCEPT !.index = of(@), !.lowindex = of(@)]
    IN {t \in W : \/ CheckWord(d, t, opt(TRUE, TRUE)) # LookupWord(d, t)
                  \/ CheckWord(d, t, opt(FALSE, TRUE)) /\ ~CheckWord(d, t, opt(TRUE, TRUE))
                  \/ CheckWord(d, t, opt(TRUE, FALSE)) # LookupWord(less, t)
                  \/ CheckWord(d, t, opt(FALSE, FALSE)) # CheckWord(less, t, opt(FALSE, TRUE))
                  \/ Guess(d.aff.casing, t) = "NO" /\ CheckWord(d, t, opt(FALSE, TRUE)) # LookupWord(d, t)
                  \* without affixes and compounds: as some entry is written
                  \/ /\ d.aff.sfx = <<>> /\ d.aff.pfx = <<>> /\ ~MayCompound(d) /\ t # <<>>
                     /\ ~HasChar(t, Dash) /\ ~IsNumber(t) /\ \A p \in Range1(d.aff.tab.BREAK) : p.lit[1] = Dash
                     /\ CheckWord(d, t, opt(FALSE, TRUE)) # \E w \in Range1(d.words) : w.stem = t}

(* --- C24: entries ------------------------------------------------------------------------------------ *)
C24Fails(d, W) ==
    LET n == Len(d.words)
        sorted(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
        wrong(t) == \/ Range1(Homonyms(d, t)) # {i \in 1..n : d.words[i].stem = t} \/ ~sorted(Homonyms(d, t))
                    \/ Range1(LowHomonyms(d, t)) # {i \in 1..n : IF d.words[i].cap = "NO" THEN t = d.words[i].stem
                                                                ELSE t \in Range1(Lowerings(d.aff.casing, d.words[i].stem))}
                    \/ \E f \in UNION {w.flags : w \in Range1(d.words)} :
                          \/ HasFlag(d, t, f) # (\E w \in Range1(d.words) : w.stem = t /\ f \in w.flags)
                          \/ AllHaveFlag(d, t, f) # /\ \E w \in Range1(d.words) : w.stem = t
                                                   /\ \A w \in Range1(d.words) : w.stem = t => f \in w.flags
        alts(w) == PhTag \in DOMAIN w.data => \A i \in 1..Len(w.alt) : w.alt[i] \in Range1(w.data[PhTag])
    IN {t \in W : wrong(t)} \cup {w.stem : w \in {x \in Range1(d.words) : ~alts(x)}}

(* --- C26: kinds of suggestions -------------------------------------------------------------------------- *)
Adjacent(w, v) == Len(w) = Len(v) /\ \E i \in 1..(Len(w) - 1) : v = [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]]
FarSwapped(w, v) == Len(w) = Len(v) /\ \E i, j \in 1..Len(w) :
                       j - i \in 2..MaxDistance /\ v = [w EXCEPT ![i] = w[j], ![j] = w[i]]
TwoSwaps(w, v) == Len(w) \in {4, 5} /\ \E i, j \in 1..(Len(w) - 1) : j >= i + 2 /\
                      v = [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i], ![j] = w[j + 1], ![j + 1] = w[j]]
Fits(d, w, s) ==
    LET v == s.text
        k == s.kind
    IN CASE k = "uppercase" -> v = Uppered(d.aff.casing, w)
         [] k = "replchars" -> \E r \in Range1(d.aff.tab.REP) : v \in AllReplacements(w, r.pat.lit, r.repl)
         [] k = "spaceword" -> \E i \in 1..(Len(w) - 1) : v \in {Take(w, i) \o <<c>> \o Drop(w, i) : c \in {Space, Dash}}
         [] k = "twowords" -> \E i \in 1..(Len(w) - 1) : v \in {Take(w, i) \o <<c>> \o Drop(w, i) : c \in {Space, Dash}}
         [] k = "mapchars" -> v # w
         [] k = "swapchar" -> Adjacent(w, v) \/ TwoSwaps(w, v)
         [] k = "longswapchar" -> FarSwapped(w, v)
         [] k = "badcharkey" -> NeighbourKey(d, w, v) \/ \E i \in 1..Len(w) : v = [w EXCEPT ![i] = UpperOf(w[i])[1]]
         [] k = "extrachar" -> ExtraLetter(w, v)
         [] k = "forgotchar" -> MissingLetter(d, w, v)
         [] k = "movechar" -> MovedLetter(w, v)
         [] k = "badchar" -> WrongLetter(d, w, v)
         [] k = "doubletwochars" -> DoubledPair(w, v)
         [] k = "ngram" -> d.aff.int.MAXNGRAMSUGS > 0
         [] k = "phonet" -> d.aff.phone
         [] k = "dashes" -> HasChar(w, Dash)
         [] k = "case" -> Lower(v) = Lower(w)
         [] k = "forceucase" -> v = Capitalized(w)
         [] OTHER -> FALSE
\* misspellings in lower case
C26Fails(d, S) ==
    {w \in S : LET s == Suggestions(d, w)
               IN Guess(d.aff.casing, w) = "NO" /\ \E i \in 1..Len(s) : ~Fits(d, w, s[i])}

(* --- C27: casing ------------------------------------------------------------------------------------------- *)
\* words of letters; a letter has one capital, with the exception of sharp s
Reversible(kind, w) == /\ kind # "tr" => ~HasChar(w, DotI) /\ ~HasChar(w, DotlessI)
                       /\ kind # "de" => ~HasChar(w, SharpS)
                       /\ ~ \E i \in 2..Len(w) : w[i] = SharpS /\ w[i - 1] \in {83, 115}    \* three S in capitals
C27Fails(d, W) ==
    LET kind == d.aff.casing
        in(v, s) == \E i \in 1..Len(s) : s[i] = v
        bad(w) ==
            LET g == Guess(kind, w)
                vs == Variants(kind, w).vs
                cs == Corrections(kind, w).vs
                ls == Lowerings(kind, w)
                up == Uppered(kind, w)
            IN \/ vs[1] # w \/ cs[1] # w \/ \E i \in 1..Len(vs) : ~in(vs[i], cs)
               \/ (g = "NO") # (\A i \in 1..Len(w) : IsLowerC(w[i]))
               \/ g = "NO" /\ (vs # <<w>> \/ cs # <<w>>)
               \/ g = "INIT" /\ ~(IsUpperC(w[1]) /\ \A i \in 2..Len(w) : IsLowerC(w[i]))
               \/ g = "ALL" /\ \E i \in 1..Len(w) : ~IsUpperC(w[i]) /\ ~(kind = "de" /\ w[i] = SharpS)
               \/ g = "HUHINIT" /\ ~IsUpperC(w[1])
               \/ g = "HUH" /\ IsUpperC(w[1])
               \/ Reversible(kind, w) /\ \/ ls = <<>>
                                         \/ \E i \in 1..Len(ls) : Uppered(kind, ls[i]) # up
                                         \/ g = "NO" /\ ~in(w, Variants(kind, up).vs)
                                         \/ g = "INIT" /\ ~in(w, Variants(kind, up).vs)
               \/ Coerce(kind, w, "ALL") # up \/ Coerce(kind, up, "ALL") # up
               \/ Coerce(kind, w, "NO") # w \/ Coerce(kind, w, "HUH") # w
               \/ \E c \in {"INIT", "HUHINIT"} : Coerce(kind, w, c) # Uppered(kind, <<w[1]>>) \o Tail(w)
    IN {w \in W : w # <<>> /\ bad(w)}

(* --- C28: candidates ----------------------------------------------------------------------------------------- *)
\* every candidate is what its kind says, every edit with one of the texts V is among them
C28Fails(d, S, V) ==
    LET bad(w) ==
            LET es == EditsOf(d, w)
                texts == {es[i].ws[1] : i \in {j \in 1..Len(es) : Len(es[j].ws) = 1}}
            IN \/ \E i \in 1..Len(es) : IF Len(es[i].ws) = 1 THEN ~Fits(d, w, [text |-> es[i].ws[1], kind |-> es[i].kind])
                                        ELSE es[i].kind = "twowords" /\ Flat(es[i].ws) # w
               \/ \E i \in 1..(Len(es) - 1) : RankOf(es[i].kind) > RankOf(es[i + 1].kind)
               \/ \E v \in V : v # w /\ OneEdit(d, w, v) /\ v \notin texts
               \/ Cardinality({i \in 1..Len(es) : es[i].kind = "twowords"}) # IF d.aff.bool.NOSPLITSUGS THEN 0 ELSE Len(w) - 1
    IN {w \in S : w # <<>> /\ bad(w)}

(* --- C30: similar words ---------------------------------------------------------------------------------------- *)
\* only forms of words which may be suggested; nothing in which a known text occurs; phonetic ones are words
C30Fails(d, S) ==
    LET hidden == {f \in {d.aff.flag.FORBIDDENWORD, d.aff.flag.NOSUGGEST, d.aff.flag.ONLYINCOMPOUND} : f # <<>>}
        words == {w \in Range1(d.words) : w.flags \cap hidden = {}}
        formsof(x, w) == Range1(RootForms(d, x, w))
        bad(w) ==
            LET free == SimilarShown(d, w, <<>>)
                known == SimilarShown(d, w, <<w>>)
            IN \/ \E i \in 1..Len(free.ngram) : \A x \in words : free.ngram[i] \notin formsof(x, Lower(w))
               \/ \E i \in 1..Len(free.phonet) : \A x \in words : free.phonet[i] # x.stem
               \/ \E i \in 1..Len(known.ngram) : HasSub(known.ngram[i], Lower(w))
               \/ \E x \in words : Lower(w) = x.stem /\ Len(w) > 3 /\ d.aff.int.MAXNGRAMSUGS > 0 /\ (free.ngram = <<>> \/ Lower(free.ngram[1]) # Lower(w))
               \/ d.aff.int.MAXNGRAMSUGS = 0 /\ free.ngram # <<>>
               \/ ~d.aff.phone /\ free.phonet # <<>>
    IN {w \in S : w # <<>> /\ bad(w)}

RECURSIVE SumSecond(_)
SumSecond(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumSecond(S \ {x})

(* --- C33: measures --------------------------------------------------------------------------------------------- *)
RECURSIVE IsSubsequence(_, _)
IsSubsequence(a, b) == IF a = <<>> THEN TRUE
                       ELSE IF b = <<>> THEN FALSE
                       ELSE IF a[1] = b[1] THEN IsSubsequence(Tail(a), Tail(b)) ELSE IsSubsequence(a, Tail(b))
Picked(a, I) == LET ks == SelectSeq([k \in 1..Len(a) |-> k], LAMBDA k : k \in I) IN [k \in 1..Len(ks) |-> a[ks[k]]]
\* the measures count what they are named after
C33Pair(a, b) ==
    LET la == Len(a)
        lb == Len(b)
        found(n) == {i \in 1..(la - n + 1) : \E j \in 1..(lb - n + 1) : SubSeq(a, i, i + n - 1) = SubSeq(b, j, j + n - 1)}
        missing(n) == (1..(la - n + 1)) \ found(n)
        ends(n) == missing(n) \cap {1, la - n + 1}
        sizes(max) == {n \in 1..max : \A m \in 1..(n - 1) : Cardinality(found(m)) >= 2}
        plain(max) == IF lb = 0 THEN 0 ELSE SumSecond({<<n, Cardinality(found(n))>> : n \in sizes(max)})
        weight(max) == IF lb = 0 THEN 0 ELSE SumSecond({<<n, Cardinality(found(n)) - Cardinality(missing(n)) - Cardinality(ends(n))>> : n \in 1..max})
        over(x) == IF lb > 0 /\ x > 2 THEN x - 2 ELSE 0
    IN /\ LcsLen(a, b) = Max({Cardinality(I) : I \in {J \in SUBSET (1..la) : IsSubsequence(Picked(a, J), b)}})
       /\ LcsLen(a, b) = LcsLen(b, a)
       /\ LeftCommon(a, b) = Max({k \in 0..Min2(la, lb) : Take(a, k) = Take(b, k)})
       /\ CommonPositions(a, b) = CommonPositions(b, a) /\ CommonPositions(a, b) >= LeftCommon(a, b)
       /\ (CommonPositions(a, b) = la /\ la = lb) <=> a = b
       /\ \A max \in 1..4 : /\ Ngram(max, a, b, "none", FALSE) = plain(max)
                            /\ Ngram(max, a, b, "longer", FALSE) = plain(max) - over(lb - la)
                            /\ Ngram(max, a, b, "any", FALSE) = plain(max) - over(AbsDiff(la, lb))
                            /\ Ngram(max, a, b, "none", TRUE) = weight(max)
                            /\ Ngram(max, a, b, "any", TRUE) = weight(max) - over(AbsDiff(la, lb))
\* codes: letter case is of no importance, letters without rules give nothing, and what follows the first
\* match is coded by itself if no rule is anchored
C33Fails(d, W) ==
    LET rules == d.aff.tab.PHONE
        code(t) == PhoneticCode(rules, t)
        free == \A k \in 1..Len(rules) : ~rules[k].start /\ ~rules[k].end /\ rules[k].take = rules[k].n
        single == free /\ \A k \in 1..Len(rules) : rules[k].n = 1
        badcode(w) ==
            \/ code(w) # code(Upper(w))
            \/ (\A i \in 1..Len(w) : \A k \in 1..Len(rules) : UpperOf(w[i]) # <<rules[k].key>>) /\ code(w) # <<>>
            \/ single /\ Len(w) > 1 /\ code(w) # code(<<w[1]>>) \o code(Tail(w))
            \/ free /\ Len(w) > 1 /\ code(w) \notin {code(Take(w, k)) \o code(Drop(w, k)) : k \in 1..(Len(w) - 1)}
                 /\ ~\E k \in 1..Len(rules) : rules[k].n >= Len(w)
    IN IF d.aff.phone THEN {w \in W : badcode(w)} ELSE {a \in W : \E b \in W : ~C33Pair(a, b)}

(* --- C35: tables by themselves ------------------------------------------------------------------------------------ *)
\* conversion: what is before the first place where a row fits stays, and rows giving their own text change nothing
ConvLaw(rows, w) ==
    LET fits(r, i) == StartsWith(Drop(w, i), r.lit) /\ (r.bol => i = 0) /\ (r.eol => i + Len(r.lit) = Len(w))
        at(i) == {k \in 1..Len(rows) : fits(rows[k], i)}
        places == {i \in 0..(Len(w) - 1) : at(i) # {}}
        first == CHOOSE i \in places : \A j \in places : i <= j
        longest == CHOOSE k \in at(first) : \A l \in at(first) : Len(rows[l].lit) <= Len(rows[k].lit)
        free == \A k \in 1..Len(rows) : ~rows[k].bol /\ ~rows[k].eol
    IN /\ places = {} => Convert(rows, w) = w
       /\ (places # {} /\ free) =>
              Convert(rows, w) = Take(w, first) \o rows[longest].repl \o Convert(rows, Drop(w, first + Len(rows[longest].lit)))
       /\ Convert([k \in 1..Len(rows) |-> [rows[k] EXCEPT !.repl = rows[k].lit]], w) = w
\* rules: a beginning is what can be continued; Q: sequences of flag sets
RuleLaw(d, k, Q) ==
    LET rule == d.aff.tab.COMPOUNDRULE[k]
        flags == {rule[i].flag : i \in 1..Len(rule)}
        full(q) == RulesShown(d, q)[k][1]
        part(q) == RulesShown(d, q)[k][2]
        tails == UNION {[1..n -> {<<f>> : f \in flags}] : n \in 0..Len(rule)}
        one(q) == \E i \in 1..Len(q) : Range1(q[i]) \cap flags = {}
    IN \A q \in Q : /\ part(q) <=> \E t \in tails : full(q \o t)
                    /\ full(q) => part(q) /\ (q # <<>> => part(Take(q, Len(q) - 1)))
                    /\ one(q) => ~part(q)
                    /\ full(q) <=> \E c \in [1..Len(q) -> {<<f>> : f \in flags}] : (\A i \in 1..Len(q) : c[i][1] \in Range1(q[i])) /\ full(c)
\* forms: a word without compounding, restrictions and affixes of affixes is a form of an entry made for it, and what is made are words
C35Fails(d, W) ==
    LET A == d.aff
        flagsets == {<<>>, <<<<65>>>>, <<<<66>>>>, <<<<65>>, <<66>>>>}
        Q == UNION {[1..n -> flagsets] : n \in 0..3}
        rules == \A k \in 1..Len(A.tab.COMPOUNDRULE) : RuleLaw(d, k, Q)
        made(w) == {RootForms(d, d.words[i], w) : i \in 1..Len(d.words)}
        bad(w) == \/ ~ConvLaw(A.tab.ICONV, w) \/ ~ConvLaw(A.tab.OCONV, w)
                  \/ A.tab.ICONV = <<>> /\ A.tab.COMPOUNDRULE = <<>> /\ A.tab.CHECKCOMPOUNDPATTERN = <<>>
                     /\ \/ LookupWord(d, w) # \E s \in made(w) : \E i \in 1..Len(s) : s[i] = w
                        \/ \E s \in made(w) : \E i \in 1..Len(s) : ~LookupWord(d, s[i])
        \* a pattern without a flag refuses all that it refuses with the flag
        looser(p) == [p EXCEPT !.left.flag = <<>>, !.right.flag = <<>>, !.left.affixed = FALSE, !.right.affixed = FALSE]
        badpair(w) == \E k \in 1..Len(A.tab.CHECKCOMPOUNDPATTERN) : \E v \in W : \E l \in PartsOf(d, w), r \in PartsOf(d, v) :
                          LET p == A.tab.CHECKCOMPOUNDPATTERN[k]
                          IN PatternMatches(p, l, r) /\ ~PatternMatches(looser(p), l, r)
    IN {w \in W : bad(w) \/ badpair(w)} \cup (IF rules THEN {} ELSE {<<>>})

\* words: to look up; sugs: to ask suggestions for
Fails(law, d, W, S) ==
    CASE law = "C01" -> C01Fails(d, W)
      [] law = "C02" -> C02Fails(d, W)
      [] law = "C03" -> C03Fails(d, W)
      [] law = "C04" -> C04Fails(d, W)
      [] law = "C05" -> C05Fails(d, W)
      [] law = "C06" -> C06Fails(d, W)
      [] law = "C07" -> C07Fails(d, W, S)
      [] law = "C08" -> C08Fails(d, W)
      [] law = "C11" -> C11Fails(d, S)
      [] law = "C12" -> C12Fails(d, S, W)
      [] law = "C13" -> C13Fails(d, S)
      [] law = "C14" -> C14Fails(d, S)
      [] law = "C15" -> C15Fails(d, S)
      [] law = "C16" -> C16Fails(d, S, W)
      [] law = "C17" -> C17Fails(d, S)
      [] law = "C18" -> C18Fails(d, S)
      [] law = "C20" -> C20Fails(d, W, S)
      [] law = "C21" -> C21Fails(d, S)
      [] law = "C22" -> C22Fails(d, W)
      [] law = "C23" -> C23Fails(d, W)
      [] law = "C24" -> C24Fails(d, W)
      [] law = "C26" -> C26Fails(d, S)
      [] law = "C27" -> C27Fails(d, W)
      [] law = "C28" -> C28Fails(d, S, W)
      [] law = "C30" -> C30Fails(d, S)
      [] law = "C33" -> C33Fails(d, W)
      [] law = "C35" -> C35Fails(d, W)
      [] OTHER -> {}
=============================================================================
