------------------------------ MODULE Loading ------------------------------
(***************************************************************************)
(* Which pair of files a request to open a dictionary finds.               *)
(*                                                                         *)
(* A layout is a sequence of items in a directory:                         *)
(*   [kind |-> "pair", path, file]           path.aff and path.dic         *)
(*   [kind |-> "zip",  path, file, entries]  an archive, entries being     *)
(*                                           pairs of name and "aff"/"dic" *)
(*                                           or other content              *)
(*   [kind |-> "dir",  path]                                               *)
(* file is the number of the pair of files.  Results are numbers of pairs, *)
(* 0 for "not found".                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

PairAt(layout, path) ==
    LET is == {i \in DOMAIN layout : layout[i].kind = "pair" /\ layout[i].path = path}
    IN IF is = {} THEN 0 ELSE layout[CHOOSE i \in is : TRUE].file

ZipAt(layout, path) ==
    LET is == {i \in DOMAIN layout : layout[i].kind = "zip" /\ layout[i].path = path}
    IN IF is = {} THEN 0 ELSE layout[CHOOSE i \in is : TRUE].file

RECURSIVE InFirst(_, _, _)
InFirst(layout, dirs, name) ==
    IF dirs = <<>> THEN 0
    ELSE LET f == PairAt(layout, Head(dirs) \o "/" \o name)
         IN IF f # 0 THEN f ELSE InFirst(layout, Tail(dirs), name)

\* bundled: sequence of [name, file]
Bundled(bundled, name) ==
    LET is == {i \in DOMAIN bundled : bundled[i].name = name}
    IN IF is = {} THEN 0 ELSE bundled[CHOOSE i \in is : TRUE].file

Resolve(layout, bundled, ev) ==
    CASE ev.how = "files"  -> PairAt(layout, ev.path)
      [] ev.how = "zip"    -> ZipAt(layout, ev.path)
      [] ev.how = "system" -> InFirst(layout, ev.dirs, ev.path)
      [] ev.how = "name"   -> LET here == PairAt(layout, ev.cwd \o "/" \o ev.path)
                              IN IF here # 0 THEN here ELSE Bundled(bundled, ev.path)
=============================================================================
