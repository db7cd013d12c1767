---------------------------- MODULE BatchVerify ----------------------------
(* Batch verification: the residues of the proofs are folded together by       *)
(* "scale what is accumulated by a fresh random scalar, then add", in whatever *)
(* tree shape the parallel schedule makes; the batch passes if the total is 0. *)
(*                                                                             *)
(* A partial sum is kept as its exact distribution over the random scalars     *)
(* (value -> number of choices), so that the probability that a bad batch      *)
(* passes is computed, not sampled, for every schedule.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Q, MaxLen
VARIABLES items, parts, failed
vars == <<items, parts, failed>>

Z == 0..(Q - 1)
Err == -1
Point(v) == [x \in Z |-> IF x = v THEN 1 ELSE 0]
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
\* r * A + B for uniform r
Merge(A, B) == TLCEval([v \in Z |-> SumF([p \in Z \X Z |-> A[p[2]] * B[(v + Q * Q - p[1] * p[2]) % Q]], Z \X Z)])

Seqs == UNION {[1..n -> Z \cup {Err}] : n \in 0..MaxLen}
Init == items \in Seqs /\ failed = FALSE /\ parts = [i \in DOMAIN items |-> <<items[i]>>]

\* a proof is verified on its own; its partial sum starts as a leaf
Leaf(i) == /\ Len(parts[i]) = 1
           /\ IF parts[i][1] = Err THEN failed' = TRUE /\ parts' = <<>>
              ELSE failed' = failed /\ parts' = [parts EXCEPT ![i] = <<"acc", Point(parts[i][1])>>]
Join(i) == /\ i < Len(parts) /\ Len(parts[i]) = 2 /\ Len(parts[i + 1]) = 2
           /\ parts' = SubSeq(parts, 1, i - 1) \o <<<<"acc", Merge(parts[i][2], parts[i + 1][2])>>>> \o SubSeq(parts, i + 2, Len(parts))
           /\ failed' = failed
Next == /\ ~failed /\ items' = items /\ \E i \in DOMAIN parts : Leaf(i) \/ Join(i)

Finished == failed \/ parts = <<>> \/ (Len(parts) = 1 /\ Len(parts[1]) = 2)
Total(A) == SumF(A, Z)
Sound ==
    Finished =>
        IF \E i \in DOMAIN items : items[i] = Err THEN failed
        ELSE IF items = <<>> THEN parts = <<>>
        ELSE IF \A i \in DOMAIN items : items[i] = 0 THEN parts[1][2][0] = Total(parts[1][2])
        ELSE parts[1][2][0] * Q <= (Len(items) - 1) * Total(parts[1][2])
\* no schedule gets stuck or drops a proof
Progress == ~Finished => ENABLED Next
=============================================================================
