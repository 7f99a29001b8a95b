------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* All the small arrangements of dictionary files in directories, and the  *)
(* laws of finding them (C10).  VP_MENU is [dirs, names, files, orders]:   *)
(* dirs and names are strings, orders are sequences of dirs.               *)
(* Arrangements are written to VP_VECTORS with what every request finds,   *)
(* and replayed with real files.                                           *)
(***************************************************************************)
EXTENDS Loading, TLC, Json, IOUtils, CSV, SequencesExt

Menu == JsonDeserialize(IOEnv.VP_MENU)
Places == [i \in 1..(Len(Menu.dirs) * Len(Menu.names)) |->
              LET d == ((i - 1) \div Len(Menu.names)) + 1
                  n == ((i - 1) % Len(Menu.names)) + 1
              IN [dir |-> Menu.dirs[d], path |-> Menu.dirs[d] \o "/" \o Menu.names[n]]]

VARIABLES put     \* sequence: which file is at each place so far (0: none)

ItemsOf(p) == LET all == [i \in 1..Len(p) |-> [kind |-> "pair", dir |-> Places[i].dir, path |-> Places[i].path, file |-> p[i]]]
              IN SelectSeq(all, LAMBDA it : it.file # 0)

Requests == {[how |-> "system", path |-> n, dirs |-> Menu.orders[o]] : n \in ToSet(Menu.names), o \in DOMAIN Menu.orders}
Found(items, rq) == Resolve(items, <<>>, rq)

\* a pair found is in one of the directories, and no directory before that has one
FindsFirst(items, rq) ==
    LET f == Found(items, rq)
        at(k) == \E i \in DOMAIN items : items[i].path = rq.dirs[k] \o "/" \o rq.path
        hits == {k \in DOMAIN rq.dirs : at(k)}
    IN IF hits = {} THEN f = 0
       ELSE LET k == CHOOSE x \in hits : \A y \in hits : x <= y
            IN \E i \in DOMAIN items : items[i].path = rq.dirs[k] \o "/" \o rq.path /\ items[i].file = f
\* files of other names and in other directories are of no importance
OthersDoNotMatter(items, rq) ==
    LET mine == SelectSeq(items, LAMBDA it : \E k \in DOMAIN rq.dirs : it.path = rq.dirs[k] \o "/" \o rq.path)
    IN Found(items, rq) = Found(mine, rq)
\* finding by name in one directory is opening by path
ByPath(items, rq) == Len(rq.dirs) = 1 => Found(items, rq) = Resolve(items, <<>>, [how |-> "files", path |-> rq.dirs[1] \o "/" \o rq.path])

LInit == put = <<>>
LStep == /\ Len(put) < Len(Places)
         /\ \E f \in 0..Menu.files : put' = Append(put, f)
         /\ Len(put') = Len(Places) =>
               CSVWrite("%1$s", <<ToJson([items |-> ItemsOf(put'), rqs |-> SetToSeq({[path |-> r.path, dirs |-> r.dirs, file |-> Found(ItemsOf(put'), r)] : r \in Requests})])>>,
                        IOEnv.VP_VECTORS)
LSpec == LInit /\ [][LStep]_put

LawsOfFinding == \A rq \in Requests : LET items == ItemsOf(put)
                                      IN FindsFirst(items, rq) /\ OthersDoNotMatter(items, rq) /\ ByPath(items, rq)
=============================================================================
