------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* Character data.  Characters are code points, texts are sequences of    *)
(* code points.  The table is data: the harness writes it from the        *)
(* Unicode database that comes with the Python interpreter, one row per    *)
(* character used in a run:                                                *)
(*    lo, up, ti   full lower/upper/title case mapping (sequences)         *)
(*    cls          0 caseless, 1 lowercase, 2 uppercase, 3 titlecase       *)
(*    dec          decimal digit                                           *)
(*    wrd          letter, number or underscore                            *)
(*    spc          white space                                             *)
(*    mid          0 none, 1 cased, 2 skipped when looking for a cased     *)
(*                 neighbour (marks, apostrophes)                          *)
(* Rows for code points below UDense are in a tuple, the others in a      *)
(* function.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

UniData == JsonDeserialize(IOEnv.VP_UNICODE)
UDense  == UniData.dense
UDenseN == Len(UDense)
UKeys   == UniData.keys
URows   == UniData.rows
UIndex  == TLCEval([c \in {UKeys[i] : i \in DOMAIN UKeys} |->
                        CHOOSE i \in DOMAIN UKeys : UKeys[i] = c])

URow(c) == IF c < UDenseN THEN UDense[c + 1] ELSE URows[UIndex[c]]

LowerOf(c) == URow(c).lo
UpperOf(c) == URow(c).up
TitleOf(c) == URow(c).ti
IsLowerC(c) == URow(c).cls = 1
IsUpperC(c) == URow(c).cls = 2
IsTitleC(c) == URow(c).cls = 3
IsCased(c) == URow(c).mid = 1
IsSkipped(c) == URow(c).mid = 2
IsDecimal(c) == URow(c).dec
IsWordC(c) == URow(c).wrd
IsSpaceC(c) == URow(c).spc
=============================================================================
