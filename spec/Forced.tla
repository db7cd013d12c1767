------------------------------- MODULE Forced -------------------------------
(* What the constraints of a recorded circuit leave the prover no choice in.  *)
(* Determined: variables on which any two accepted witnesses agree that agree *)
(* on the variables in fix, whatever their values are there.  small gives     *)
(* variables assumed to be below 2^16.                                        *)
(* ForcedVars finds such variables for large circuits (spec/java/Forced.java) *)
(* by rules that never look at the honest witness:                            *)
(*   domain    an equation in one variable has the roots of its polynomial,   *)
(*             a lookup leaves the values of the table rows its other         *)
(*             columns allow                                                  *)
(*   linear    an equation whose only undetermined variable occurs with a     *)
(*             constant coefficient determines it                             *)
(*   lookup    columns of a row that are a function of the determined ones    *)
(*   radix     if the sum of c_i x_i is determined and cannot wrap around the *)
(*             modulus, and the small terms stay below a number that divides  *)
(*             the coefficients of the others, both parts are determined; so  *)
(*             are all terms, if they use different bits                      *)
(* The sums are those of the equations and their linear combinations without  *)
(* the variables of unknown domain.  Sums that are looked up, or that a       *)
(* product of their differences with constants confines to a few values, get  *)
(* variables of their own.  ForcedMax: upper bounds found in the same way.    *)
(* ForcedCheck compares both with the definitions.                            *)
EXTENDS Circ, TLC
Witnesses(sys, small) ==
  LET All == {Big(i) : i \in 0..(Small(sys.p) - 1)}
      W == [1..sys.n -> All]
      Dev(a) == [i \in 1..sys.n |-> <<i, a[i]>>]
  IN {a \in W : (\A v \in small : v <= sys.n => Small(a[v]) < 65536) /\ \A c \in 1..Len(sys.c) : Holds(sys, Dev(a), c)}
Determined(sys, fix, small) ==
  LET S == TLCEval(Witnesses(sys, small))
      F == {v \in fix : v <= sys.n}
      On(a) == [u \in F |-> a[u]]
  IN {v \in 1..sys.n : Cardinality({<<On(a), a[v]>> : a \in S}) = Cardinality({On(a) : a \in S})}
ForcedVars(sys, fix, small) == Determined(sys, fix, small)
\* the largest value of each variable ("0" if there is no witness)
Largest(sys, fix, small) ==
  LET S == TLCEval(Witnesses(sys, small))
      M(v) == CHOOSE m \in 0..(Small(sys.p) - 1) : (\A a \in S : Small(a[v]) <= m) /\ (m = 0 \/ \E a \in S : Small(a[v]) = m)
  IN [v \in 1..sys.n |-> Big(M(v))]
ForcedMax(sys, fix, small) == Largest(sys, fix, small)
=============================================================================
