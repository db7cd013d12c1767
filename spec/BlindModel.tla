----------------------------- MODULE BlindModel -----------------------------
(* Why Blinding.tla asks what it asks, exhaustively over a small field.       *)
(*                                                                            *)
(* One column of four rows: the last b are drawn at random, the others are    *)
(* the witness.  The prover sends a commitment with its own blind (or without *)
(* one) and q evaluations.  Hidden: the set of possible views is the same for *)
(* every witness (the views are an affine image of the draws, so the set is   *)
(* the distribution).  Fresh: the criterion of Blinding.tla.                  *)
EXTENDS Integers, Sequences, FiniteSets, Field, TLC

FP == 13
H == <<1, 5, 12, 8>>
Pts == <<2, 10, 3>>          \* x, x * omega, x3
G == <<4, 7, 11, 2>>         \* generators, and the one of the blind
W == 6
\* the Lagrange basis of H at x
Lag(x) == [i \in 1..4 |-> MulM(MulM(H[i], SubM(PowM(x, 4, FP), 1, FP), FP), InvM(MulM(4, SubM(x, H[i], FP), FP), FP), FP)]
Lags == [j \in 1..3 |-> Lag(Pts[j])]

\* message m of the view as a vector over the rows and the blind: 0 the commitment, j the evaluation at point j
Vec(m, blinded) == IF m = 0 THEN Append(G, IF blinded THEN W ELSE 0) ELSE Append(Lags[m], 0)
View(rows, q, blinded) == [m \in 1..(q + 1) |-> DotM(Vec(m - 1, blinded), rows, FP)]
Draws(b) == [1..(b + 1) -> 0..(FP - 1)]
Views(wit, b, q, blinded) == {View([i \in 1..5 |-> IF i <= 4 - b THEN wit[i] ELSE d[i - (4 - b)]], q, blinded) : d \in Draws(b)}
Witnesses == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<3, 9, 5, 0>>}
Hidden(b, q, blinded) == \A w \in Witnesses : Views(w, b, q, blinded) = Views(<<0, 0, 0, 0>>, b, q, blinded)

RECURSIVE Reduce(_, _)
Reduce(v, bs) == IF bs = <<>> THEN v ELSE Reduce(SubScaledM(v, v[Head(bs).at], Head(bs).v, FP), Tail(bs))
RECURSIVE FreshFrom(_, _, _, _, _)
FreshFrom(m, b, q, blinded, bs) ==
    IF m > q THEN TRUE
    ELSE LET v == Reduce(SubSeq(Vec(m, blinded), 5 - b, 5), bs)
         IN IF \A i \in DOMAIN v : v[i] = 0 THEN FALSE
            ELSE LET at == CHOOSE i \in DOMAIN v : v[i] # 0
                 IN FreshFrom(m + 1, b, q, blinded, Append(bs, [at |-> at, v |-> ScaleM(v, InvM(v[at], FP), FP)]))
Fresh(b, q, blinded) == FreshFrom(0, b, q, blinded, <<>>)

VARIABLES b, q, blinded
Init == b \in 1..3 /\ q \in 0..3 /\ blinded \in BOOLEAN
Next == UNCHANGED <<b, q, blinded>>
\* the criterion is the definition, and it holds exactly when enough rows are random
Criterion == Fresh(b, q, blinded) = Hidden(b, q, blinded)
Count == Hidden(b, q, blinded) <=> q + (IF blinded THEN 0 ELSE 1) <= b
=============================================================================
