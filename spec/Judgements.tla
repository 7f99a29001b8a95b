----------------------------- MODULE Judgements -----------------------------
(***************************************************************************)
(* What has to be true of any list of suggestions, whatever the way they   *)
(* were found.  Judged gives <<>>, or the reason why the list is wrong.    *)
(* For misspellings in lower case or capitalised, dictionaries without     *)
(* OCONV and FORCEUCASE.                                                   *)
(***************************************************************************)
EXTENDS Analysis

\* what may have been re-cased to s
Sources(d, s, cap) ==
    IF cap = "NO" \/ s = <<>> THEN {s}
    ELSE {s, Lower(s)} \cup Range1(LowerFirsts(d.aff.casing, s))
         \cup (IF cap = "ALL" THEN {Capitalized(s)} \cup {d.words[i].stem : i \in {j \in DOMAIN d.words :
                                        Uppered(d.aff.casing, d.words[j].stem) = s}} ELSE {})

PartsGood(d, t, sep) ==
    \E i \in 1..Len(t) : /\ t[i] = sep
                         /\ LET l == Take(t, i - 1)
                                r == Drop(t, i)
                            IN \/ GoodAsIs(d, l, FALSE, "any") /\ GoodAsIs(d, r, FALSE, "any")
                               \/ /\ sep = Space /\ GoodAsIs(d, l, FALSE, "any")
                                  /\ \E k \in 1..Len(r) : /\ r[k] = Space
                                                          /\ GoodAsIs(d, Take(r, k - 1), FALSE, "any")
                                                          /\ GoodAsIs(d, Drop(r, k), FALSE, "any")

EditLike(d, w, cap, s) ==
    \/ \E t \in Sources(d, s, cap) : GoodAsIs(d, t, FALSE, "any") \/ PartsGood(d, t, Space) \/ PartsGood(d, t, Dash)
    \/ HasChar(w, Dash) /\ HasChar(s, Dash) /\ LookupWord(d, s)

SimilarLike(d, w, cap, s) ==
    /\ d.aff.int.MAXNGRAMSUGS > 0 \/ d.aff.phone
    /\ \E i \in 1..Len(d.roots) :
          LET fs == RootForms(d, d.roots[i], Lower(w))
          IN \E k \in 1..Len(fs) : s = fs[k] \/ Respelled(d, w, cap, fs[k]) = s

SoundReason(d, w, list) ==
    LET cap == Guess(d.aff.casing, w)
        bad == {i \in 1..Len(list) : ~EditLike(d, w, cap, list[i])}
        rest == IF bad = {} THEN <<>> ELSE Drop(list, Min(bad) - 1)
        wrong == {i \in 1..Len(rest) : ~SimilarLike(d, w, cap, rest[i])}
    IN IF wrong # {} THEN <<"not a word of the dictionary", rest[Min(wrong)]>>
       ELSE IF Len(rest) > Max2(0, d.aff.int.MAXNGRAMSUGS) + (IF d.aff.phone THEN MaxPhonetic ELSE 0)
            THEN <<"too many similar words", rest>>
       ELSE <<>>

LimitsReason(d, w, list) ==
    LET dup == {i \in 1..Len(list) : \E j \in 1..(i - 1) : list[j] = list[i]}
        vs == Corrections(d.aff.casing, w).vs
        most == Len(vs) * (1 + MaxEdits + (IF MayCompound(d) THEN Max2(0, d.aff.int.MAXCPDSUGS) ELSE 0))
                + Max2(0, d.aff.int.MAXNGRAMSUGS) + (IF d.aff.phone THEN MaxPhonetic ELSE 0)
    IN IF dup # {} THEN <<"repeated", list[Min(dup)]>>
       ELSE IF ~HasChar(w, Dash) /\ Len(list) > most THEN <<"too many", <<>>>>
       ELSE <<>>

HiddenReason(d, w, list) ==
    LET f == {i \in 1..Len(list) : IsForbidden(d, list[i])}
    IN IF f # {} THEN <<"forbidden", list[Min(f)]>> ELSE SoundReason(d, w, list)

Judged(j, d, w, list) ==
    CASE j = "sound" -> SoundReason(d, w, list)
      [] j = "limits" -> LimitsReason(d, w, list)
      [] j = "hidden" -> HiddenReason(d, w, list)
=============================================================================
