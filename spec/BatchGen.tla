----------------------------- MODULE BatchGen -----------------------------
(* Batches to run through the real verifier: every composition of kinds of    *)
(* proofs up to MaxLen, and longer ones that are valid but for one bad proof  *)
(* or two whose errors cancel.  A batch is acceptable iff all its members are.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS MaxLen, MaxSmall, Long, Tier
VARIABLES batch, todo
Kinds == {<<"ok", 0>>, <<"shift", 1>>, <<"shift", -1>>, <<"cut", 0>>, <<"value", 0>>, <<"extra", 0>>}
Small == {<<"ok", 0>>, <<"shift", 1>>, <<"shift", -1>>, <<"shift", -2>>}
Rare == {<<"none", 0>>, <<"tail", 0>>, <<"canon", 0>>, <<"fewer", 0>>, <<"long", 0>>, <<"circuits", 0>>, <<"cut", 500>>, <<"shift", 2>>}
Ok == <<"ok", 0>>
Valid(k) == k[1] \in {"ok", "tail"}
Fill(n, f) == [i \in 1..n |-> IF i \in DOMAIN f THEN f[i] ELSE Ok]
One(n) == {Fill(n, i :> k) : i \in 1..n, k \in {<<"shift", 1>>, <<"cut", 3>>, <<"value", 0>>}}
Pairs(n) == {Fill(n, (i :> <<"shift", 1>>) @@ (j :> <<"shift", -1>>)) : i \in 1..n, j \in 1..n} \cup {Fill(n, [i \in {} |-> Ok])}
\* cancelling under a constant or small multiplier m per step
Mult(n) == {Fill(n, (1 :> <<"shift", 1>>) @@ (n :> <<"shift", -m>>)) : m \in 1..Tier}
Batches ==
    UNION {[1..n -> Kinds] : n \in 0..MaxLen} \cup UNION {[1..n -> Small] : n \in 0..MaxSmall}
    \cup UNION {{Fill(n, i :> k) : i \in 1..n, k \in Rare} : n \in 1..3}
    \cup UNION {One(n) \cup Pairs(n) : n \in Long}
    \cup Mult(2)
Init == batch \in Batches /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ batch' = batch
        /\ PrintT("GEN|" \o ToJson([b |-> batch, want |-> \A i \in DOMAIN batch : Valid(batch[i])]))
=============================================================================
