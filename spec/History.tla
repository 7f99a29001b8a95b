------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Behaviours of Session with made-up answers: what the sessions of a user *)
(* look like, whatever the dictionaries are.  VP_MENU is                   *)
(*   [files, words, slots, iterators, longest, depth]                      *)
(* A suggestion is <<file, word, number>>; the list for a word has a       *)
(* length depending on both (0..longest).                                  *)
(*                                                                         *)
(* Checked here: the state of Session is enough to answer correctly after  *)
(* any history (an iterator always delivers the list of the dictionary it  *)
(* was started on, each element once, in order, whatever is asked, opened  *)
(* or forgotten in between).  Histories of length depth are written to     *)
(* VP_VECTORS; they are replayed in the library with real dictionaries and *)
(* validated by Trace.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

VARIABLES ds, its, hist, got

S == INSTANCE SessionState

Menu == JsonDeserialize(IOEnv.VP_MENU)
Files == 1..Menu.files
Words == 1..Menu.words
Slots == 1..Menu.slots
Its == 1..Menu.iterators

\* the list for a word, in a dictionary
List(f, w) == [k \in 1..((f + 2 * w) % (Menu.longest + 1)) |-> <<f, w, k>>]

Note(e) == /\ hist' = Append(hist, e)
           /\ Len(hist') = Menu.depth => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.VP_VECTORS)

HInit == S!SInit /\ hist = <<>> /\ got = S!EmptyMap

HOpen == \E s \in Slots, f \in Files :
            /\ S!Open(s, f, f)
            /\ Note([op |-> "open", slot |-> s, file |-> f]) /\ UNCHANGED got
HForget == \E s \in DOMAIN ds : /\ Cardinality(DOMAIN ds) > 1 /\ S!Forget(s)
                                /\ Note([op |-> "forget", slot |-> s]) /\ UNCHANGED got
HAsk == \E s \in DOMAIN ds, w \in Words, op \in {"lookup", "suggest"} :
            S!Ask /\ Note([op |-> op, slot |-> s, w |-> w]) /\ UNCHANGED got
HStart == \E i \in Its, s \in DOMAIN ds, w \in Words :
            /\ S!Start(i, List(ds[s].file, w))
            /\ Note([op |-> "start", it |-> i, slot |-> s, w |-> w])
            /\ got' = S!Put(got, i, [file |-> ds[s].file, w |-> w, taken |-> <<>>])
HNext == \E i \in DOMAIN its :
            /\ S!Advance(i)
            /\ Note([op |-> "next", it |-> i])
            /\ got' = IF S!NextAnswer(i).k = "end" THEN got
                      ELSE [got EXCEPT ![i].taken = Append(@, S!NextAnswer(i).v)]
HDrop == \E i \in DOMAIN its : S!Drop1(i) /\ Note([op |-> "drop", it |-> i]) /\ got' = S!Without(got, i)

HStep == Len(hist) < Menu.depth /\ (HOpen \/ HForget \/ HAsk \/ HStart \/ HNext \/ HDrop)
HSpec == HInit /\ [][HStep]_<<ds, its, hist, got>>

\* what was taken and what is left make up the list
IteratorsKeep == \A i \in DOMAIN its : got[i].taken \o its[i] = List(got[i].file, got[i].w)
\* a request changes nothing but its own iterator
OnlyOwn == [][LET e == hist'[Len(hist')]
              IN /\ e.op \notin {"open", "forget"} => ds' = ds
                 /\ \A i \in DOMAIN its : 
                        \/ e.op \in {"start", "next", "drop"} /\ e.it = i
                        \/ i \in DOMAIN its' /\ its'[i] = its[i]
             ]_<<ds, its, hist, got>>
=============================================================================
