------------------------------ MODULE BoundGen ------------------------------
(* C14: every kind of access, at every distance from the last usable row, for  *)
(* each planner and for constraint systems with different numbers of blinding  *)
(* rows.  One initial state per combination; the records are replayed through  *)
(* key generation, proving, verification and mock proving.                     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Shapes, Offs, Pres
VARIABLE c
\* adv: advice; sel: selector; fix: fixed; copy/fcopy: equality with a cell at that row;
\* inst: equality with an instance row; advi: advice from an instance row; ival: reading one; table: number of
\* table rows (the default value starts at the next one); ilen: length of an instance vector;
\* const: constants placed by the planner up to that row
KindsOf == {"adv", "sel", "fix", "copy", "fcopy", "inst", "advi", "ival", "table", "ilen"}
Init == c \in [kind : KindsOf, off : Offs, fp : {"simple", "v1"}, shape : Shapes, pre : Pres]
Next == UNCHANGED c
Emit == PrintT("GEN|" \o ToJson(c))
=============================================================================
