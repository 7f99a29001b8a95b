------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Is a word correct?  d is a dictionary value (DicFile!Load).             *)
(*                                                                         *)
(* A form of a text is [stem, p, s, p2, s2]: how the text may have been    *)
(* made of a stem by prefixes and suffixes (numbers of affixes, 0: none;   *)
(* p, s are next to the stem, p2, s2 are the outer ones).                  *)
(* The position in a compound is "" (not in a compound), "B", "M" or "E".  *)
(***************************************************************************)
EXTENDS DicFile

Undo(t, add, strip) == Take(t, Len(t) - Len(add)) \o strip
UndoPrefix(t, add, strip) == strip \o Drop(t, Len(add))

\* suffixes which may end the text t, with the flags wanted and without the unwanted
SuffixesOf(d, t, need, unwanted, crossonly) ==
    SelectSeq([i \in 1..Len(d.aff.sfx) |-> i],
        LAMBDA i : LET x == d.aff.sfx[i]
                   IN /\ EndsWith(t, x.add)
                      /\ (crossonly => x.cross)
                      /\ need \subseteq x.flags
                      /\ unwanted \cap x.flags = {}
                      /\ CondSuffix(x.cond, Undo(t, x.add, x.strip)))
PrefixesOf(d, t, need, unwanted) ==
    SelectSeq([i \in 1..Len(d.aff.pfx) |-> i],
        LAMBDA i : LET x == d.aff.pfx[i]
                   IN /\ StartsWith(t, x.add)
                      /\ need \subseteq x.flags
                      /\ unwanted \cap x.flags = {}
                      /\ CondPrefix(x.cond, UndoPrefix(t, x.add, x.strip)))

Base(t) == [stem |-> t, p |-> 0, s |-> 0, p2 |-> 0, s2 |-> 0]

\* forms with one or two suffixes
Desuffixed(d, t, need, unwanted, crossonly) ==
    LET outer == SuffixesOf(d, t, need, unwanted, crossonly)
        withone(i) ==
            LET x == d.aff.sfx[i]
                st == Undo(t, x.add, x.strip)
                inner == SuffixesOf(d, st, need \cup {x.flag}, unwanted, crossonly)
            IN << [Base(st) EXCEPT !.s = i] >> \o
               [k \in 1..Len(inner) |->
                    [Base(Undo(st, d.aff.sfx[inner[k]].add, d.aff.sfx[inner[k]].strip))
                        EXCEPT !.s = inner[k], !.s2 = i]]
    IN Flat([k \in 1..Len(outer) |-> withone(outer[k])])

\* forms with one prefix, or two with COMPLEXPREFIXES
Deprefixed(d, t, need, unwanted) ==
    LET outer == PrefixesOf(d, t, need, unwanted)
        withone(i) ==
            LET x == d.aff.pfx[i]
                st == UndoPrefix(t, x.add, x.strip)
                inner == IF d.aff.bool.COMPLEXPREFIXES
                         THEN PrefixesOf(d, st, need \cup {x.flag}, unwanted) ELSE <<>>
            IN << [Base(st) EXCEPT !.p = i] >> \o
               [k \in 1..Len(inner) |->
                    [Base(UndoPrefix(st, d.aff.pfx[inner[k]].add, d.aff.pfx[inner[k]].strip))
                        EXCEPT !.p = inner[k], !.p2 = i]]
    IN Flat([k \in 1..Len(outer) |-> withone(outer[k])])

\* all the forms a text may be, in the order they are considered
Forms(d, t, pneed, sneed, unwanted, pos) ==
    LET suffixed == pos \in {"", "E"} \/ sneed # {}
        prefixed == pos \in {"", "B"} \/ pneed # {}
        both(f) ==
            IF suffixed /\ d.aff.pfx[f.p].cross
            THEN LET g == Desuffixed(d, f.stem, sneed, unwanted, TRUE)
                 IN <<f>> \o [k \in 1..Len(g) |-> [g[k] EXCEPT !.p = f.p, !.p2 = f.p2]]
            ELSE <<f>>
        pre == IF prefixed /\ d.aff.pfx # <<>> THEN Deprefixed(d, t, pneed, unwanted) ELSE <<>>
    IN << Base(t) >>
       \o (IF suffixed /\ d.aff.sfx # <<>> THEN Desuffixed(d, t, sneed, unwanted, FALSE) ELSE <<>>)
       \o Flat([k \in 1..Len(pre) |-> both(pre[k])])

IsBase(f) == f.s = 0 /\ f.p = 0
SfxFlags(d, i) == IF i = 0 THEN {} ELSE d.aff.sfx[i].flags
PfxFlags(d, i) == IF i = 0 THEN {} ELSE d.aff.pfx[i].flags
FormFlags(d, f, w) == w.flags \cup PfxFlags(d, f.p) \cup SfxFlags(d, f.s)

\* may the form be made of the dictionary word w?
GoodForm(d, f, w, pos, cap, nosug) ==
    LET F == d.aff.flag
        all == FormFlags(d, f, w)
    IN /\ nosug \/ F.NOSUGGEST \notin w.flags
       /\ \/ cap = w.cap
          \/ F.KEEPCASE \notin w.flags
          \/ d.aff.bool.CHECKSHARPS /\ HasChar(w.stem, SharpS)
       /\ F.NEEDAFFIX # <<>> =>
             /\ IsBase(f) => F.NEEDAFFIX \notin w.flags
             /\ ~IsBase(f) =>
                   \/ f.p2 # 0 /\ F.NEEDAFFIX \notin PfxFlags(d, f.p2)
                   \/ f.p # 0 /\ F.NEEDAFFIX \notin PfxFlags(d, f.p)
                   \/ f.s # 0 /\ F.NEEDAFFIX \notin SfxFlags(d, f.s)
                   \/ f.s2 # 0 /\ F.NEEDAFFIX \notin SfxFlags(d, f.s2)
       /\ f.p # 0 => d.aff.pfx[f.p].flag \in all
       /\ f.s # 0 => d.aff.sfx[f.s].flag \in all
       /\ F.CIRCUMFIX # <<>> => (F.CIRCUMFIX \in SfxFlags(d, f.s)) = (F.CIRCUMFIX \in PfxFlags(d, f.p))
       /\ CASE pos = "" -> F.ONLYINCOMPOUND \notin all
            [] F.COMPOUNDFLAG \in all -> TRUE
            [] pos = "B" -> F.COMPOUNDBEGIN \in all
            [] pos = "M" -> F.COMPOUNDMIDDLE \in all
            [] pos = "E" -> F.COMPOUNDEND \in all

\* The readings of a text as a dictionary form: sequence of [f, w].  A form with affixes, or a part of a
\* compound, whose stem is forbidden ends the search (unless forb).
Readings(d, t, cap, nosug, pneed, sneed, unwanted, pos, forb) ==
    LET fs == Forms(d, t, pneed, sneed, unwanted, pos)
        forbid == d.aff.flag.FORBIDDENWORD
        cands(f, hs) == SelectSeq(hs, LAMBDA h : GoodForm(d, f, d.words[h], pos, cap, nosug))
        pack(f, hs) == [k \in 1..Len(hs) |-> [f |-> f, w |-> d.words[hs[k]]]]
        step(acc, f) ==
            IF acc.stop THEN acc
            ELSE LET hs == Homonyms(d, f.stem)
                 IN IF /\ ~forb /\ forbid # <<>> /\ hs # <<>>
                       /\ (pos # "" \/ ~IsBase(f))
                       /\ \E k \in 1..Len(hs) : forbid \in d.words[hs[k]].flags
                    THEN [acc EXCEPT !.stop = TRUE]
                    ELSE LET plain == IF hs = <<>> THEN <<>> ELSE cands(f, hs)
                             lowered == IF pos = "B" /\ d.aff.flag.FORCEUCASE # <<>> /\ cap = "INIT"
                                        THEN cands(f, Homonyms(d, Lower(f.stem))) ELSE <<>>
                             anycase == IF /\ plain = <<>> /\ lowered = <<>> /\ pos = "" /\ cap = "ALL"
                                           /\ Guess(d.aff.casing, t) = "NO"
                                        THEN cands(f, LowHomonyms(d, f.stem)) ELSE <<>>
                             found == plain \o lowered \o anycase
                         IN IF found = <<>> THEN acc ELSE [acc EXCEPT !.out = @ \o pack(f, found)]
    IN FoldLeft(step, [stop |-> FALSE, out |-> <<>>], fs).out

PlainReadings(d, t, cap, nosug) == Readings(d, t, cap, nosug, {}, {}, {}, "", FALSE)
IsPlainForm(d, t, cap) == PlainReadings(d, t, cap, TRUE) # <<>>

(* --- compounds ---------------------------------------------------------------- *)
SetOfFlag(f) == IF f = <<>> THEN {} ELSE {f}

\* what the vetoes need to know about a part
PartOf(d, t, r) == [text |-> t, stem |-> r.f.stem, flags |-> FormFlags(d, r.f, r.w), base |-> IsBase(r.f)]

\* candidates of REP replacements in a text (those with a space included)
RepCandidates(rep, t) ==
    IF Len(t) < 2 THEN <<>>
    ELSE Flat([k \in 1..Len(rep) |->
            LET ms == AnchorMatches(rep[k].pat, t, 0)
            IN [m \in 1..Len(ms) |-> Take(t, ms[m]) \o rep[k].repl \o Drop(t, ms[m] + Len(rep[k].pat.lit))]])

PatternMatches(pat, l, r) ==
    /\ EndsWith(l.stem, pat.left.stem) /\ StartsWith(r.stem, pat.right.stem)
    /\ pat.left.affixed => ~l.base
    /\ pat.right.affixed => ~r.base
    /\ pat.left.flag # <<>> => pat.left.flag \in l.flags
    /\ pat.right.flag # <<>> => pat.right.flag \in r.flags

Triple(s) == Len(s) = 3 /\ s[1] = s[2] /\ s[2] = s[3]
CaseBound(l, r) == LET a == l[Len(l)] b == r[1]
                   IN (UpperOf(a) = <<a>> \/ UpperOf(b) = <<b>>) /\ a # Dash /\ b # Dash

VetoedPair(d, l, r, cap, last) ==
    LET B == d.aff.bool
        F == d.aff.flag
    IN \/ F.COMPOUNDFORBIDFLAG # <<>> /\ HasFlag(d, l.text, F.COMPOUNDFORBIDFLAG)
       \/ IsPlainForm(d, l.text \o <<Space>> \o r.text, cap)
       \/ /\ B.CHECKCOMPOUNDREP
          /\ LET cs == RepCandidates(d.aff.tab.REP, l.text \o r.text)
             IN \E k \in 1..Len(cs) : IsPlainForm(d, cs[k], cap)
       \/ /\ B.CHECKCOMPOUNDTRIPLE
          /\ \/ Triple(Drop(l.text, Max2(0, Len(l.text) - 2)) \o Take(r.text, Min2(1, Len(r.text))))
             \/ Triple(Drop(l.text, Max2(0, Len(l.text) - 1)) \o Take(r.text, Min2(2, Len(r.text))))
       \/ B.CHECKCOMPOUNDCASE /\ CaseBound(l.text, r.text)
       \/ \E k \in 1..Len(d.aff.tab.CHECKCOMPOUNDPATTERN) :
              PatternMatches(d.aff.tab.CHECKCOMPOUNDPATTERN[k], l, r)
       \/ B.CHECKCOMPOUNDDUP /\ last /\ l.text = r.text

Vetoed(d, parts, cap) ==
    \/ /\ d.aff.flag.FORCEUCASE # <<>> /\ cap \notin {"ALL", "INIT"}
       /\ HasFlag(d, parts[Len(parts)].text, d.aff.flag.FORCEUCASE)
    \/ \E i \in 1..(Len(parts) - 1) : VetoedPair(d, parts[i], parts[i + 1], cap, i = Len(parts) - 1)

\* possible readings of a text as a part of a compound, as a set of parts
PartsAt(d, t, shown, cap, nosug, pos) ==
    LET permit == SetOfFlag(d.aff.flag.COMPOUNDPERMITFLAG)
        forbid == SetOfFlag(d.aff.flag.COMPOUNDFORBIDFLAG)
        rs == Readings(d, t, cap, nosug, IF pos = "B" THEN {} ELSE permit,
                       IF pos = "E" THEN {} ELSE permit, forbid, pos, FALSE)
    IN {PartOf(d, shown, rs[k]) : k \in 1..Len(rs)}

MayExtend(d, n, rest) ==   \* n parts so far: may the rest be two parts or more?
    /\ Len(rest) >= 2 * d.aff.int.COMPOUNDMIN
    /\ d.aff.int.COMPOUNDWORDMAX > 0 => n + 2 <= d.aff.int.COMPOUNDWORDMAX

\* is there a completion of the parts so far, by flags, which is not vetoed?
RECURSIVE FlagCompound(_, _, _, _, _)
FlagCompound(d, parts, rest, cap, nosug) ==
    LET n == Len(parts)
        pos == IF n = 0 THEN "B" ELSE "M"
        min == d.aff.int.COMPOUNDMIN
    IN \/ /\ n > 0
          /\ \E c \in PartsAt(d, rest, rest, cap, nosug, "E") : ~Vetoed(d, Append(parts, c), cap)
       \/ /\ MayExtend(d, n, rest)
          /\ \E k \in min..(Len(rest) - min) :
                LET beg == Take(rest, k)
                    tail == Drop(rest, k)
                IN \/ \E c \in PartsAt(d, beg, beg, cap, nosug, pos) :
                          FlagCompound(d, Append(parts, c), tail, cap, nosug)
                   \/ /\ d.aff.bool.SIMPLIFIEDTRIPLE
                      /\ beg[Len(beg)] = tail[1]
                      /\ \E c \in PartsAt(d, Append(beg, beg[Len(beg)]), beg, cap, nosug, pos) :
                            FlagCompound(d, Append(parts, c), tail, cap, nosug)

\* COMPOUNDRULE: the states of a rule are the numbers of items that may come next (Len + 1: the end)
RECURSIVE Closure(_, _)
Closure(rule, i) == IF i <= Len(rule) /\ rule[i].q # "1" THEN {i} \cup Closure(rule, i + 1) ELSE {i}
RuleStart(rule) == Closure(rule, 1)
RuleStep(rule, st, flags) ==
    UNION {Closure(rule, IF rule[i].q = "*" THEN i ELSE i + 1) :
              i \in {j \in st : j <= Len(rule) /\ rule[j].flag \in flags}}
\* sts: states of all rules
RuleStates(d, sts, w) == TLCEval([k \in DOMAIN sts |-> RuleStep(d.aff.tab.COMPOUNDRULE[k], sts[k], w.flags)])
RuleAlive(sts) == \E k \in DOMAIN sts : sts[k] # {}
RuleEnd(d, sts) == \E k \in DOMAIN sts : (Len(d.aff.tab.COMPOUNDRULE[k]) + 1) \in sts[k]
RulePart(t) == [text |-> t, stem |-> t, flags |-> {}, base |-> TRUE]

\* entries which may be parts: none of a stem with a forbidden entry, no hidden ones where those are left out
RuleEntries(d, t, nosug) ==
    LET F == d.aff.flag
        hs == Homonyms(d, t)
    IN IF F.FORBIDDENWORD # <<>> /\ \E k \in 1..Len(hs) : F.FORBIDDENWORD \in d.words[hs[k]].flags THEN <<>>
       ELSE SelectSeq(hs, LAMBDA h : nosug \/ F.NOSUGGEST \notin d.words[h].flags)

RECURSIVE RuleCompound(_, _, _, _, _, _)
RuleCompound(d, parts, rest, sts, cap, nosug) ==
    LET n == Len(parts)
        min == d.aff.int.COMPOUNDMIN
        hs == RuleEntries(d, rest, nosug)
    IN \/ /\ n > 0
          /\ \E k \in 1..Len(hs) : RuleEnd(d, RuleStates(d, sts, d.words[hs[k]]))
          /\ ~Vetoed(d, Append(parts, RulePart(rest)), cap)
       \/ /\ MayExtend(d, n, rest)
          /\ \E k \in min..(Len(rest) - min) :
                LET beg == Take(rest, k)
                    hb == RuleEntries(d, beg, nosug)
                IN \E j \in 1..Len(hb) :
                      LET nx == RuleStates(d, sts, d.words[hb[j]])
                      IN RuleAlive(nx) /\ RuleCompound(d, Append(parts, RulePart(beg)), Drop(rest, k), nx, cap, nosug)

IsCompound(d, t, cap, nosug) ==
    LET F == d.aff.flag
    IN /\ \/ F.COMPOUNDBEGIN # <<>> \/ F.COMPOUNDFLAG # <<>> \/ d.aff.tab.COMPOUNDRULE # <<>>
       /\ F.FORBIDDENWORD # <<>> =>
            LET rs == Readings(d, t, cap, TRUE, {}, {}, {}, "", TRUE)
            IN \A k \in 1..Len(rs) : F.FORBIDDENWORD \notin FormFlags(d, rs[k].f, rs[k].w)
       /\ \/ /\ F.COMPOUNDBEGIN # <<>> \/ F.COMPOUNDFLAG # <<>>
             /\ FlagCompound(d, <<>>, t, cap, nosug)
          \/ /\ d.aff.tab.COMPOUNDRULE # <<>>
             /\ RuleCompound(d, <<>>, t, [k \in DOMAIN d.aff.tab.COMPOUNDRULE |->
                                             RuleStart(d.aff.tab.COMPOUNDRULE[k])], cap, nosug)

(* --- a word, in any of its capitalization variants ------------------------------ *)
\* written: the word as it is in the text, t: the variant considered
IsAffixed(d, written, t, cap, nosug) ==
    LET rs == PlainReadings(d, t, cap, nosug)
        keep == d.aff.flag.KEEPCASE
    IN \E k \in 1..Len(rs) :
          ~ /\ d.aff.bool.CHECKSHARPS /\ keep # <<>> /\ cap = "ALL"
            /\ HasChar(rs[k].w.stem, SharpS)
            /\ keep \in FormFlags(d, rs[k].f, rs[k].w)
            /\ HasChar(written, SharpS)

\* exactly as written, without considering other capitalizations; kind is "any", "affixed" or "compound"
GoodAsIs(d, t, nosug, kind) ==
    LET cap == Guess(d.aff.casing, t)
    IN \/ kind # "compound" /\ IsAffixed(d, t, t, cap, nosug)
       \/ kind # "affixed" /\ IsCompound(d, t, cap, nosug)

GoodWord(d, t) ==
    LET v == Variants(d.aff.casing, t)
    IN \E k \in 1..Len(v.vs) : \/ IsAffixed(d, t, v.vs[k], v.cap, TRUE)
                               \/ IsCompound(d, v.vs[k], v.cap, TRUE)

(* --- breaking --------------------------------------------------------------------- *)
BreakAt(p, t, i) ==
    /\ AnchorMatchAt(p, t, i)
    /\ (~p.bol /\ ~p.eol) => i >= 1 /\ i + Len(p.lit) < Len(t)
\* offsets of the non-overlapping occurrences
RECURSIVE Breaks(_, _, _)
Breaks(p, t, i) ==
    IF i > Len(t) THEN {}
    ELSE IF BreakAt(p, t, i) THEN {i} \cup Breaks(p, t, i + Max2(1, Len(p.lit)))
    ELSE Breaks(p, t, i + 1)

MaxCuts == 10
RECURSIVE GoodBroken(_, _, _)
GoodBroken(d, t, cuts) ==
    \/ t = <<>>
    \/ GoodWord(d, t)
    \/ /\ cuts < MaxCuts
       /\ \E k \in DOMAIN d.aff.tab.BREAK :
             LET p == d.aff.tab.BREAK[k]
             IN \E i \in Breaks(p, t, 0) :
                   /\ i = 0 \/ GoodWord(d, Take(t, i))
                   /\ GoodBroken(d, Drop(t, i + Len(p.lit)), cuts + 1)

\* the answer of lookup
LookupWord(d, word) ==
    LET forbid == d.aff.flag.FORBIDDENWORD
        conv == Convert(d.aff.tab.ICONV, word)
        w == IF d.aff.ignore = {} THEN conv ELSE RemoveChars(conv, d.aff.ignore)
    IN IF forbid # <<>> /\ AllHaveFlag(d, word, forbid) THEN FALSE
       ELSE IF IsNumber(w) THEN TRUE
       ELSE GoodBroken(d, w, 0)
=============================================================================
