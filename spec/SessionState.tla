---------------------------- MODULE SessionState ----------------------------
(***************************************************************************)
(* The library as seen by its user: dictionaries are opened in slots,      *)
(* asked for words, and give iterators over suggestions.                   *)
(*    ds   slot -> [file: number of the pair of files, d: the value]       *)
(*    its  iterator -> suggestions not yet taken                           *)
(* A request never changes ds; it changes its only for its own iterator.   *)
(* Answers to lookup and suggest depend on the dictionary value and the    *)
(* word only.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES ds, its

EmptyMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

SInit == ds = EmptyMap /\ its = EmptyMap

Open(slot, file, d) == ds' = TLCEval(Put(ds, slot, [file |-> file, d |-> d])) /\ UNCHANGED its
Forget(slot) == ds' = TLCEval(Without(ds, slot)) /\ UNCHANGED its
Ask == UNCHANGED <<ds, its>>
Start(it, list) == its' = TLCEval(Put(its, it, list)) /\ UNCHANGED ds
Advance(it) == its' = TLCEval(IF its[it] = <<>> THEN its ELSE [its EXCEPT ![it] = Tail(@)]) /\ UNCHANGED ds
Drop1(it) == its' = TLCEval(Without(its, it)) /\ UNCHANGED ds

\* answers
Done(k) == [k |-> k, v |-> <<>>]
NextAnswer(it) == IF its[it] = <<>> THEN Done("end") ELSE [k |-> "text", v |-> its[it][1]]
=============================================================================
