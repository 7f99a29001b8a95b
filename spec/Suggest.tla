------------------------------ MODULE Suggest ------------------------------
(***************************************************************************)
(* The sequence of suggestions for a word: [text, kind] in order.          *)
(*                                                                         *)
(* acc: [out, seen, count, stop]: suggestions so far, their texts, how     *)
(* many were added in the current round, whether the round is over.        *)
(***************************************************************************)
EXTENDS Similar

MaxEdits == 15
MaxPhonetic == 2
GoodKinds == {"spaceword", "uppercase", "replchars"}
NoCompoundKinds == {"uppercase", "replchars", "mapchars"}

IsForbidden(d, t) == d.aff.flag.FORBIDDENWORD # <<>> /\ HasFlag(d, t, d.aff.flag.FORBIDDENWORD)

\* the spelling offered for a found text (before output conversion)
Respelled(d, word, cap, t) ==
    IF /\ d.aff.flag.KEEPCASE # <<>> /\ HasFlag(d, t, d.aff.flag.KEEPCASE)
       /\ ~(d.aff.bool.CHECKSHARPS /\ HasChar(t, SharpS))
    THEN t
    ELSE LET c == Coerce(d.aff.casing, t, cap)
             u == IF c # t /\ IsForbidden(d, c) THEN t ELSE c
             pos == Find(u, <<Space>>, 0)
         IN IF /\ cap \in {"HUH", "HUHINIT"} /\ pos # -1
               /\ pos + 2 <= Len(u) /\ pos + 1 <= Len(word)
               /\ u[pos + 2] # word[pos + 1]
               /\ UpperOf(u[pos + 2]) = <<word[pos + 1]>>
            THEN [u EXCEPT ![pos + 2] = word[pos + 1]]
            ELSE u

Found(d, word, cap, acc, t, kind, inclusion) ==
    LET u == Respelled(d, word, cap, t)
        o == Convert(d.aff.tab.OCONV, u)
    IN IF \/ IsForbidden(d, u)
          \/ o \in acc.seen
          \/ inclusion /\ \E s \in acc.seen : HasSub(Lower(o), Lower(s))
       THEN acc
       ELSE [acc EXCEPT !.out = Append(@, [text |-> o, kind |-> kind]), !.seen = @ \cup {o}, !.count = @ + 1]

GoodSuggestion(d, t, kind) == GoodAsIs(d, t, FALSE, kind)

\* one round of edits of a variant: at most limit suggestions
EditRound(d, word, cap, variant, acc0, kind, limit) ==
    LET add(a, t, k) ==
            IF a.stop THEN a
            ELSE LET b == Found(d, word, cap, a, t, k, FALSE)
                 IN IF b.count >= limit \/ (b.count > a.count /\ k = "spaceword" /\ kind = "affixed")
                    THEN [b EXCEPT !.stop = TRUE] ELSE b
        step(a, e) ==
            IF a.stop THEN a
            ELSE IF Len(e.ws) = 1
                 THEN IF GoodSuggestion(d, e.ws[1], kind) THEN add(a, e.ws[1], e.kind) ELSE a
            ELSE IF \A i \in 1..Len(e.ws) : GoodSuggestion(d, e.ws[i], kind)
                 THEN LET b == add(a, JoinBy(e.ws, <<Space>>), e.kind)
                      IN IF e.dash THEN add(b, JoinBy(e.ws, <<Dash>>), e.kind) ELSE b
            ELSE a
    IN IF limit <= 0 THEN acc0
       ELSE FoldLeft(step, [acc0 EXCEPT !.count = 0, !.stop = FALSE], EditsOf(d, variant))

NewKinds(before, after) == {after.out[i].kind : i \in (Len(before.out) + 1)..Len(after.out)}

MayCompound(d) == \/ d.aff.flag.COMPOUNDBEGIN # <<>> \/ d.aff.flag.COMPOUNDFLAG # <<>>
                  \/ d.aff.tab.COMPOUNDRULE # <<>>

\* all the variants; done: a whole entry with a space was found, nothing more is needed
VariantRounds(d, word, cap, vs) ==
    LET step(st, i) ==
            IF st.done THEN st
            ELSE LET v == vs[i]
                     a1 == IF i > 1 /\ GoodSuggestion(d, v, "any")
                           THEN Found(d, word, cap, st.acc, v, "case", FALSE) ELSE st.acc
                     a2 == EditRound(d, word, cap, v, a1, "affixed", MaxEdits)
                     k2 == NewKinds(a1, a2)
                     a3 == IF k2 \cap NoCompoundKinds # {} \/ ~MayCompound(d) THEN a2
                           ELSE EditRound(d, word, cap, v, a2, "compound", d.aff.int.MAXCPDSUGS)
                     k3 == NewKinds(a2, a3)
                 IN IF "spaceword" \in k2
                    THEN [acc |-> a2, good |-> TRUE, done |-> TRUE]
                    ELSE [acc |-> a3, good |-> st.good \/ (k2 \cup k3) \cap GoodKinds # {}, done |-> FALSE]
    IN FoldLeft(step, [acc |-> [out |-> <<>>, seen |-> {}, count |-> 0, stop |-> FALSE], good |-> FALSE, done |-> FALSE],
                [i \in 1..Len(vs) |-> i])

\* first capitalization which is good, for words that have to be capitalized
ForcedCapital(d, word) ==
    LET cs == Capitalizings(d.aff.casing, word)
        is == {i \in 1..Len(cs) : GoodSuggestion(d, cs[i], "any")}
    IN IF is = {} THEN <<>> ELSE cs[Min(is)]

RECURSIVE Suggestions(_, _)

\* hyphenated words: the first bad part is replaced by its suggestions
DashRound(d, word, acc) ==
    IF ~HasChar(word, Dash) \/ \E s \in acc.seen : HasChar(s, Dash) THEN acc
    ELSE LET chunks == TLCEval(SplitN(word, Dash, 0 - 1))
             bads == {i \in 1..Len(chunks) : ~GoodSuggestion(d, chunks[i], "any")}
         IN IF bads = {} THEN acc
            ELSE LET b == Min(bads)
                     sugs == Suggestions(d, chunks[b])
                     step(a, s) == LET c == JoinBy([chunks EXCEPT ![b] = s.text], <<Dash>>)
                                   IN IF LookupWord(d, c)
                                      THEN [a EXCEPT !.out = Append(@, [text |-> c, kind |-> "dashes"]),
                                                     !.seen = @ \cup {c}]
                                      ELSE a
                 IN FoldLeft(step, acc, sugs)

SimilarRound(d, word, cap, acc0, texts, kind, limit) ==
    LET step(a, t) ==
            IF a.count >= limit THEN a
            ELSE Found(d, word, cap, a, t, kind, TRUE)
    IN FoldLeft(step, [acc0 EXCEPT !.count = 0], texts)

Suggestions(d, word) ==
    LET c == Corrections(d.aff.casing, word)
        acc0 == [out |-> <<>>, seen |-> {}, count |-> 0, stop |-> FALSE]
        forced == IF d.aff.flag.FORCEUCASE # <<>> /\ c.cap = "NO" THEN ForcedCapital(d, word) ELSE <<>>
        st == VariantRounds(d, word, c.cap, c.vs)
        a1 == DashRound(d, word, st.acc)
        known == {Lower(s) : s \in a1.seen}
        a2 == IF d.aff.int.MAXNGRAMSUGS = 0 THEN a1
              ELSE SimilarRound(d, word, c.cap, a1,
                        NgramChosen(NgramGuesses(d, Lower(word)), known, d.aff.bool.ONLYMAXDIFF),
                        "ngram", d.aff.int.MAXNGRAMSUGS)
        a3 == IF ~d.aff.phone THEN a2
              ELSE SimilarRound(d, word, c.cap, a2, PhoneticGuesses(d, word), "phonet", MaxPhonetic)
    IN IF forced # <<>> THEN Found(d, word, c.cap, acc0, Capitalized(forced), "forceucase", FALSE).out
       ELSE IF st.done \/ st.good THEN st.acc.out
       ELSE a3.out

SuggestTexts(d, word) == LET s == Suggestions(d, word) IN [i \in 1..Len(s) |-> s[i].text]
=============================================================================
