---------------------------- MODULE PoseidonCheck ----------------------------
(* The generator's overrides compute its definitions (PoseidonDef is Poseidon *)
(* under another name, so that nothing overrides it).                         *)
EXTENDS Poseidon, TLC
D == INSTANCE PoseidonDef
VARIABLES i, s
Init == i = 0 /\ s = Grain0(31, 3, 8, 56)
Next == i < 25 /\ i' = i + 1 /\ s' = Clocks(s, 13)
Agree == /\ Clocks(s, i + 7) = D!Clocks(s, i + 7) /\ TakeBits(s, i, "5") = D!TakeBits(s, i, "5")
         /\ (i = 0 => Grain(7, 2, 2, 2) = D!Grain(7, 2, 2, 2))
=============================================================================
