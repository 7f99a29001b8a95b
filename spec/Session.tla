------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The whole library: sessions, the search for suggestions and lookup,     *)
(* dictionary files, and the ways to open them.                            *)
(***************************************************************************)
EXTENDS Suggest, Loading, SessionState
=============================================================================
