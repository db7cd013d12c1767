------------------------------- MODULE Exhaust -------------------------------
(* Every witness whatsoever of a small circuit over a small field: variables  *)
(* are given values one after the other, restricted to the solutions of a     *)
(* constraint that ends with that variable when there is one.  Every complete *)
(* assignment that satisfies all constraints must be in the relation, and     *)
(* every input in the domain must be reached.                                 *)
EXTENDS GadgetRel, Circ, Report, Json
Cases == JsonDeserialize("cases.json")
VARIABLES cid, asg, pend
vars == <<cid, asg, pend>>
C == Cases[cid]
Sys == C.sys
Ends(c, v) == {b \in 1..Len(Cases[c].sys.c) : LastVar(Cases[c].sys, b) = v}
EndsOf == [c \in 1..Len(Cases) |-> [v \in 1..Cases[c].sys.n |-> Ends(c, v)]]
All == {Big(i) : i \in 0..(Small(Sys.p) - 1)}
Init == \E c \in 1..Len(Cases) : cid = c /\ asg = <<>> /\ pend = TRUE
Extend ==
  /\ pend /\ Len(asg) < Sys.n
  /\ LET v == Len(asg) + 1
         E == EndsOf[cid][v]
         D == IF E = {} THEN All ELSE Solutions(Sys, asg, CHOOSE b \in E : \A a \in E : b <= a, v, 100000)
     IN \E x \in D :
          LET n == Append(asg, <<v, x>>) IN
          /\ \A b \in E : Holds(Sys, n, b)
          /\ asg' = n
  /\ UNCHANGED <<cid, pend>>
Judge ==
  /\ pend /\ Len(asg) = Sys.n /\ pend' = FALSE
  /\ LET io == [i \in 1..Len(C.io) |-> Val(Sys, asg, Sys.io[i])] IN
       /\ PrintT("SOL|" \o ToString(C.id) \o (IF C.g = "secc" THEN "|" \o ToString(io) ELSE ""))
       /\ IF Rel(C, io) THEN TRUE ELSE Reject(C.id, "0: a satisfying witness outside the relation " \o ToString(asg))
  /\ UNCHANGED <<cid, asg>>
Next == Extend \/ Judge
=============================================================================
