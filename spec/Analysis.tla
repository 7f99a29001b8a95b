------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* What the library tells beyond yes, no and a list of texts: the readings *)
(* of a word (good_forms), the options of the checker, the way a           *)
(* suggestion was found, and the contents of the files as loaded.          *)
(*                                                                         *)
(* A reading of a part is [text, stem, pre, suf, entry]: pre and suf are   *)
(* bags of affixes, entry is a sequence with the dictionary entry (empty   *)
(* for parts of compounds made by rules).  A reading of a word is a        *)
(* sequence of parts with a mark telling compounds.                        *)
(***************************************************************************)
EXTENDS Session

BagOf(s) == [x \in Range1(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

ShownAffix(x) == [flag |-> x.flag, cross |-> x.cross, strip |-> x.strip, add |-> x.add, cond |-> x.craw, flags |-> x.flags]
ShownEntry(w) == [stem |-> w.stem, flags |-> w.flags]

UsedOf(affs, is) == LET js == SelectSeq(is, LAMBDA i : i # 0) IN BagOf([k \in 1..Len(js) |-> ShownAffix(affs[js[k]])])
ShownPart(d, t, r) == [text |-> t, stem |-> r.f.stem, pre |-> UsedOf(d.aff.pfx, <<r.f.p, r.f.p2>>),
                       suf |-> UsedOf(d.aff.sfx, <<r.f.s, r.f.s2>>), entry |-> <<ShownEntry(r.w)>>]
ShownRulePart(t) == [text |-> t, stem |-> t, pre |-> BagOf(<<>>), suf |-> BagOf(<<>>), entry |-> <<>>]

(* --- all the readings as a compound ------------------------------------------- *)
\* parts with what is shown of them
ReadPartsAt(d, t, shown, cap, nosug, pos) ==
    LET permit == SetOfFlag(d.aff.flag.COMPOUNDPERMITFLAG)
        forbid == SetOfFlag(d.aff.flag.COMPOUNDFORBIDFLAG)
        rs == Readings(d, t, cap, nosug, IF pos = "B" THEN {} ELSE permit,
                       IF pos = "E" THEN {} ELSE permit, forbid, pos, FALSE)
    IN {[part |-> PartOf(d, shown, rs[k]), shown |-> ShownPart(d, shown, rs[k])] : k \in 1..Len(rs)}

RECURSIVE FlagCompounds(_, _, _, _, _)
FlagCompounds(d, n, rest, cap, nosug) ==    \* sequences of parts which may follow n parts
    LET pos == IF n = 0 THEN "B" ELSE "M"
        min == d.aff.int.COMPOUNDMIN
        ends == IF n = 0 THEN {} ELSE {<<c>> : c \in ReadPartsAt(d, rest, rest, cap, nosug, "E")}
        from(k) ==
            LET beg == Take(rest, k)
                tail == Drop(rest, k)
                plain == ReadPartsAt(d, beg, beg, cap, nosug, pos)
                doubled == IF d.aff.bool.SIMPLIFIEDTRIPLE /\ beg[Len(beg)] = tail[1]
                           THEN ReadPartsAt(d, Append(beg, beg[Len(beg)]), beg, cap, nosug, pos) ELSE {}
                all == plain \cup doubled
            IN IF all = {} THEN {} ELSE {<<c>> \o r : c \in all, r \in FlagCompounds(d, n + 1, tail, cap, nosug)}
    IN IF MayExtend(d, n, rest) THEN ends \cup UNION {from(k) : k \in min..(Len(rest) - min)} ELSE ends

RECURSIVE RuleCompounds(_, _, _, _, _)
RuleCompounds(d, n, rest, sts, nosug) ==
    LET min == d.aff.int.COMPOUNDMIN
        hs == RuleEntries(d, rest, nosug)
        one(t) == [part |-> RulePart(t), shown |-> ShownRulePart(t)]
        ends == IF n > 0 /\ \E k \in 1..Len(hs) : RuleEnd(d, RuleStates(d, sts, d.words[hs[k]]))
                THEN {<<one(rest)>>} ELSE {}
        from(k) ==
            LET beg == Take(rest, k)
                hb == RuleEntries(d, beg, nosug)
            IN UNION {LET nx == RuleStates(d, sts, d.words[hb[j]])
                      IN IF RuleAlive(nx) THEN {<<one(beg)>> \o r : r \in RuleCompounds(d, n + 1, Drop(rest, k), nx, nosug)} ELSE {}
                      : j \in 1..Len(hb)}
    IN IF MayExtend(d, n, rest) THEN ends \cup UNION {from(k) : k \in min..(Len(rest) - min)} ELSE ends

CompoundReadingsOf(d, t, cap, nosug) ==
    LET F == d.aff.flag
        rs == Readings(d, t, cap, TRUE, {}, {}, {}, "", TRUE)
        hidden == F.FORBIDDENWORD # <<>> /\ \E k \in 1..Len(rs) : F.FORBIDDENWORD \in FormFlags(d, rs[k].f, rs[k].w)
        byflags == IF F.COMPOUNDBEGIN # <<>> \/ F.COMPOUNDFLAG # <<>> THEN FlagCompounds(d, 0, t, cap, nosug) ELSE {}
        byrules == IF d.aff.tab.COMPOUNDRULE # <<>>
                   THEN RuleCompounds(d, 0, t, [k \in DOMAIN d.aff.tab.COMPOUNDRULE |-> RuleStart(d.aff.tab.COMPOUNDRULE[k])], nosug)
                   ELSE {}
        parts(c) == [i \in 1..Len(c) |-> c[i].part]
        shown(c) == [i \in 1..Len(c) |-> c[i].shown]
    IN IF hidden THEN {} ELSE {shown(c) : c \in {x \in byflags \cup byrules : ~Vetoed(d, parts(x), cap)}}

AffixReadingsOf(d, written, t, cap, nosug) ==
    LET rs == PlainReadings(d, t, cap, nosug)
        keep == d.aff.flag.KEEPCASE
        sharp(r) == /\ d.aff.bool.CHECKSHARPS /\ keep # <<>> /\ cap = "ALL"
                    /\ HasChar(r.w.stem, SharpS) /\ keep \in FormFlags(d, r.f, r.w) /\ HasChar(written, SharpS)
    IN {ShownPart(d, t, rs[k]) : k \in {j \in 1..Len(rs) : ~sharp(rs[j])}}

\* o: the options [cap, nosug, aff, comp]
WordReadings(d, t, o) ==
    LET v == IF o.cap THEN Variants(d.aff.casing, t) ELSE [cap |-> Guess(d.aff.casing, t), vs |-> <<t>>]
        one(x) == (IF o.aff THEN {[comp |-> FALSE, parts |-> <<r>>] : r \in AffixReadingsOf(d, t, x, v.cap, o.nosug)} ELSE {})
                  \cup (IF o.comp THEN {[comp |-> TRUE, parts |-> r] : r \in CompoundReadingsOf(d, x, v.cap, o.nosug)} ELSE {})
    IN TLCEval(UNION {one(v.vs[k]) : k \in 1..Len(v.vs)})

\* what was recorded, as such a set
RecordedAffix(x) == [flag |-> x.flag, cross |-> x.cross, strip |-> x.strip, add |-> x.add, cond |-> x.cond, flags |-> Range1(x.flags)]
RecordedBag(s) == BagOf([i \in 1..Len(s) |-> RecordedAffix(s[i])])
RecordedEntry(e) == [i \in 1..Len(e) |-> [stem |-> e[i].stem, flags |-> Range1(e[i].flags)]]
RecordedPart(p) == [text |-> p.text, stem |-> p.stem, pre |-> RecordedBag(p.pre), suf |-> RecordedBag(p.suf), entry |-> RecordedEntry(p.entry)]
RecordedReadings(v) ==
    TLCEval({[comp |-> v[i].comp, parts |-> [k \in 1..Len(v[i].parts) |-> RecordedPart(v[i].parts[k])]] : i \in 1..Len(v)})

(* --- the checker with its options ------------------------------------------------ *)
GoodWordOpt(d, t, o) ==
    LET v == IF o.cap THEN Variants(d.aff.casing, t) ELSE [cap |-> Guess(d.aff.casing, t), vs |-> <<t>>]
    IN \E k \in 1..Len(v.vs) : \/ IsAffixed(d, t, v.vs[k], v.cap, o.nosug)
                               \/ IsCompound(d, v.vs[k], v.cap, o.nosug)

RECURSIVE GoodBrokenOpt(_, _, _, _)
GoodBrokenOpt(d, t, cuts, o) ==
    \/ t = <<>>
    \/ GoodWordOpt(d, t, o)
    \/ /\ cuts < MaxCuts
       /\ \E k \in DOMAIN d.aff.tab.BREAK :
             LET p == d.aff.tab.BREAK[k]
             IN \E i \in Breaks(p, t, 0) :
                   /\ i = 0 \/ GoodWordOpt(d, Take(t, i), o)
                   /\ GoodBrokenOpt(d, Drop(t, i + Len(p.lit)), cuts + 1, o)

CheckWord(d, word, o) ==
    LET forbid == d.aff.flag.FORBIDDENWORD
        conv == Convert(d.aff.tab.ICONV, word)
        w == IF d.aff.ignore = {} THEN conv ELSE RemoveChars(conv, d.aff.ignore)
    IN IF forbid # <<>> /\ AllHaveFlag(d, word, forbid) THEN FALSE
       ELSE IF IsNumber(w) THEN TRUE
       ELSE GoodBrokenOpt(d, w, 0, o)

(* --- contents ---------------------------------------------------------------------- *)
EntryShown(w) == [stem |-> w.stem, flags |-> w.flags, data |-> w.data, alt |-> w.alt, cap |-> w.cap]
RecordedData(s) == [t \in {s[i].tag : i \in 1..Len(s)} |-> (CHOOSE x \in Range1(s) : x.tag = t).values]
RecordedEntryFull(e) == [stem |-> e.stem, flags |-> Range1(e.flags), data |-> RecordedData(e.data), alt |-> e.alt, cap |-> e.cap]
EntriesShown(d) == [i \in 1..Len(d.words) |-> EntryShown(d.words[i])]
RecordedEntries(v) == [i \in 1..Len(v) |-> RecordedEntryFull(v[i])]

\* numbers of the entries with a stem, as it is and ignoring case; flags asked about
HomonymsShown(d, s) == [exact |-> Homonyms(d, s), low |-> LowHomonyms(d, s)]
FlagShown(d, q) == [any |-> HasFlag(d, q.stem, q.flag), all |-> AllHaveFlag(d, q.stem, q.flag)]

\* tables of affixes: flag -> rows in order
TablesShown(tabs) == [f \in {tabs[i].flag : i \in 1..Len(tabs)} |->
                        LET rows == (CHOOSE x \in Range1(tabs) : x.flag = f).rows
                        IN [k \in 1..Len(rows) |-> ShownAffix(rows[k])]]
RecordedTables(v) == [f \in {v[i].flag : i \in 1..Len(v)} |->
                        LET rows == (CHOOSE x \in Range1(v) : x.flag = f).rows
                        IN [k \in 1..Len(rows) |-> RecordedAffix(rows[k])]]

AnchorText(p) == (IF p.bol THEN <<94>> ELSE <<>>) \o p.lit \o (IF p.eol THEN <<36>> ELSE <<>>)
OptionsShown(d) ==
    [bools |-> {n \in BoolDirs : d.aff.bool[n]},
     flags |-> [n \in {m \in FlagDirs : d.aff.flag[m] # <<>>} |-> d.aff.flag[n]],
     ints |-> d.aff.int,
     texts |-> [n \in {m \in TextDirs : d.aff.text[m] # <<>>} |-> d.aff.text[n]],
     ignore |-> d.aff.ignore,
     brk |-> [i \in DOMAIN d.aff.tab.BREAK |-> AnchorText(d.aff.tab.BREAK[i])],
     rep |-> [i \in DOMAIN d.aff.tab.REP |-> [pat |-> AnchorText(d.aff.tab.REP[i].pat), repl |-> d.aff.tab.REP[i].raw]],
     map |-> d.aff.tab.MAP,
     iconv |-> d.aff.tab.ICONV, oconv |-> d.aff.tab.OCONV,
     rules |-> d.aff.tab.COMPOUNDRULE, patterns |-> d.aff.tab.CHECKCOMPOUNDPATTERN,
     phone |-> [i \in DOMAIN d.aff.tab.PHONE |-> [key |-> d.aff.tab.PHONE[i].raw, repl |-> d.aff.tab.PHONE[i].repl]],
     af |-> d.aff.ctx.af, am |-> [i \in DOMAIN d.aff.tab.AM |-> Range1(d.aff.tab.AM[i])],
     enc |-> d.aff.ctx.enc, fmt |-> d.aff.ctx.fmt,
     sfx |-> TablesShown(d.aff.sfxtabs), pfx |-> TablesShown(d.aff.pfxtabs)]
Named(v) == [n \in {v[i].name : i \in 1..Len(v)} |-> (CHOOSE x \in Range1(v) : x.name = n).value]
RecordedOptions(v) ==
    [bools |-> Range1(v.bools), flags |-> Named(v.flags), ints |-> Named(v.ints), texts |-> Named(v.texts), ignore |-> Range1(v.ignore),
     brk |-> v.brk, rep |-> v.rep, map |-> v.map,
     iconv |-> [i \in 1..Len(v.iconv) |-> TLCEval(ConvRow(v.iconv[i]))], oconv |-> [i \in 1..Len(v.oconv) |-> TLCEval(ConvRow(v.oconv[i]))],
     rules |-> [i \in 1..Len(v.rules) |-> TLCEval(CompoundRuleOf(v.rules[i]))],
     patterns |-> [i \in 1..Len(v.patterns) |-> [left |-> PatSide(v.patterns[i][1]), right |-> PatSide(v.patterns[i][2]), repl |-> v.patterns[i][3]]],
     phone |-> v.phone,
     af |-> [i \in 1..Len(v.af) |-> Range1(v.af[i])], am |-> [i \in 1..Len(v.am) |-> Range1(v.am[i])],
     enc |-> EncOf(v.enc), fmt |-> FmtOf(v.fmt),
     sfx |-> RecordedTables(v.sfx), pfx |-> RecordedTables(v.pfx)]

(* --- casing ------------------------------------------------------------------------ *)
\* a sequence without repetitions
RECURSIVE OnceFrom(_, _, _)
OnceFrom(s, i, seen) == IF i > Len(s) THEN <<>>
                        ELSE IF s[i] \in seen THEN OnceFrom(s, i + 1, seen)
                        ELSE <<s[i]>> \o OnceFrom(s, i + 1, seen \cup {s[i]})
Once(s) == TLCEval(OnceFrom(s, 1, {}))

CapTypes == <<"NO", "INIT", "ALL", "HUH", "HUHINIT">>
CasingShown(kind, w) ==
    [guess |-> Guess(kind, w), lower |-> Once(Lowerings(kind, w)), upper |-> Uppered(kind, w),
     capital |-> Once(Capitalizings(kind, w)), first |-> Once(LowerFirsts(kind, w)),
     variants |-> Once(Variants(kind, w).vs), corrections |-> Once(Corrections(kind, w).vs),
     coerced |-> [i \in 1..Len(CapTypes) |-> Coerce(kind, w, CapTypes[i])]]
RecordedCasing(v) == [v EXCEPT !.lower = Once(@), !.capital = Once(@), !.first = Once(@), !.variants = Once(@), !.corrections = Once(@)]

(* --- candidates ---------------------------------------------------------------------- *)
\* corrections tried for a text
CandidatesShown(d, w) == Once(EditsOf(d, w))

\* all the measures of two texts
MeasuresShown(a, b, combos) ==
    <<CommonPositions(a, b), LeftCommon(a, b), LcsLen(a, b)>>
    \o [i \in 1..Len(combos) |-> Ngram(combos[i].n, a, b, combos[i].mode, combos[i].weighted)]
CodeShown(d, w) == IF d.aff.phone THEN PhoneticCode(d.aff.tab.PHONE, w) ELSE <<>>

(* --- tables by themselves ---------------------------------------------------------- *)
ConvsShown(d, w) == <<Convert(d.aff.tab.ICONV, w), Convert(d.aff.tab.OCONV, w)>>

\* q: sequence of sequences of flags
RECURSIVE RuleAfter(_, _, _)
RuleAfter(rule, st, q) == IF q = <<>> THEN st ELSE RuleAfter(rule, RuleStep(rule, st, Range1(Head(q))), Tail(q))
RulesShown(d, q) == [k \in 1..Len(d.aff.tab.COMPOUNDRULE) |->
                        LET rule == d.aff.tab.COMPOUNDRULE[k]
                            st == RuleAfter(rule, RuleStart(rule), q)
                        IN <<(Len(rule) + 1) \in st, st # {}>>]

PartsOf(d, w) == LET rs == PlainReadings(d, w, Guess(d.aff.casing, w), TRUE) IN {PartOf(d, w, rs[k]) : k \in 1..Len(rs)}
PatternsShown(d, a, b) == [k \in 1..Len(d.aff.tab.CHECKCOMPOUNDPATTERN) |->
                              LET hits == {PatternMatches(d.aff.tab.CHECKCOMPOUNDPATTERN[k], l, r) : l \in PartsOf(d, a), r \in PartsOf(d, b)}
                              IN <<TRUE \in hits, FALSE \notin hits>>]

\* similar words before limits, when the texts known are found already
SimilarShown(d, w, known) ==
    [ngram |-> IF d.aff.int.MAXNGRAMSUGS = 0 THEN <<>>
               ELSE NgramChosen(NgramGuesses(d, Lower(w)), {Lower(known[i]) : i \in 1..Len(known)}, d.aff.bool.ONLYMAXDIFF),
     phonet |-> IF d.aff.phone THEN PhoneticGuesses(d, w) ELSE <<>>]
=============================================================================
