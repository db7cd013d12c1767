----------------------------- MODULE LookupArg -----------------------------
(* The lookup argument.  The prover permutes the inputs A into A' and the      *)
(* table S into S' so that, row by row, A' equals S' or the A' before it.      *)
(* Checked for every A and S over a small field:                               *)
(*  - the prover's algorithm (one step per row of A', then one per leftover    *)
(*    table entry) succeeds iff every input is in the table, and its result    *)
(*    satisfies the constraints (Complete);                                    *)
(*  - whatever A', S' a prover comes up with, if the constraints hold and they *)
(*    are permutations, every input is in the table (Sound);                   *)
(*  - the grand product tells non-permutations apart except for few challenge  *)
(*    pairs (beta, gamma) (ProductSound).                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Bags, TLC
CONSTANTS Q, NRows, V, Mode
VARIABLES A, S, A1, S1, left, row, phase, free
vars == <<A, S, A1, S1, left, row, phase, free>>
Vecs == [1..NRows -> V]
Sorted(f) == SortSeq(f, LAMBDA x, y : x < y)
Count(f, v) == Cardinality({i \in 1..NRows : f[i] = v})
IsPerm(f, g) == \A v \in V : Count(f, v) = Count(g, v)
Valid == \A i \in 1..NRows : \E j \in 1..NRows : A[i] = S[j]

Rules(a, s) == a[1] = s[1] /\ \A i \in 2..NRows : a[i] = s[i] \/ a[i] = a[i - 1]

Init == /\ A \in Vecs /\ S \in Vecs
        /\ IF Mode = "any" THEN A1 \in Vecs /\ S1 \in Vecs /\ phase = "given" ELSE A1 = Sorted(A) /\ S1 = [i \in 1..NRows |-> -1] /\ phase = "rows"
        /\ left = [v \in V |-> Count(S, v)] /\ row = 1 /\ free = <<>>
\* first occurrence of an input value takes one table entry; a repetition leaves its row free
Row ==
    /\ phase = "rows" /\ row <= NRows
    /\ IF row = 1 \/ A1[row] # A1[row - 1]
       THEN IF left[A1[row]] > 0
            THEN S1' = [S1 EXCEPT ![row] = A1[row]] /\ left' = [left EXCEPT ![A1[row]] = @ - 1] /\ free' = free /\ phase' = phase
            ELSE phase' = "refused" /\ UNCHANGED <<S1, left, free>>
       ELSE free' = Append(free, row) /\ UNCHANGED <<S1, left, phase>>
    /\ row' = row + 1 /\ UNCHANGED <<A, S, A1>>
Fill ==
    /\ phase = "rows" /\ row > NRows
    /\ LET v == {v \in V : left[v] > 0}
       IN IF v = {} THEN phase' = "done" /\ UNCHANGED <<S1, left, free>>
          ELSE /\ free # <<>>
               /\ \E x \in v : S1' = [S1 EXCEPT ![Last(free)] = x] /\ left' = [left EXCEPT ![x] = @ - 1]
               /\ free' = Front(free) /\ phase' = phase
    /\ UNCHANGED <<A, S, A1, row>>
Next == Row \/ Fill

Complete == /\ (phase = "refused" => ~Valid)
            /\ (phase = "done" => Valid /\ free = <<>> /\ IsPerm(A, A1) /\ IsPerm(S, S1) /\ Rules(A1, S1))
            /\ (phase = "rows" => ENABLED Next)
Sound == phase = "given" /\ IsPerm(A, A1) /\ IsPerm(S, S1) /\ Rules(A1, S1) => Valid

Z == 0..(Q - 1)
RECURSIVE ProdR(_, _, _)
ProdR(f, b, i) == IF i = 0 THEN 1 ELSE (ProdR(f, b, i - 1) * (f[i] + b)) % Q
Good == {p \in Z \X Z : (ProdR(A, p[1], NRows) * ProdR(S, p[2], NRows)) % Q = (ProdR(A1, p[1], NRows) * ProdR(S1, p[2], NRows)) % Q}
ProductSound == phase = "given" => IF IsPerm(A, A1) /\ IsPerm(S, S1) THEN Good = Z \X Z ELSE Cardinality(Good) <= 2 * NRows * Q
=============================================================================
