-------------------------------- MODULE Circ --------------------------------
(* The meaning of a recorded gadget circuit: a system of polynomial equations *)
(* and table memberships over the equality classes of its cells.              *)
(*   sys.n       number of variables, in the order the prover computed them   *)
(*   sys.w       honest value of each variable, then the constants            *)
(*   sys.t       templates: sequences of expressions over numbered holes      *)
(*   sys.c       constraints << template, table (0: equations), arguments >>  *)
(*   sys.tabs    lookup tables                                                *)
(* A deviation dev is a sequence of << variable, value >>; later entries win. *)
(* These definitions are evaluated by spec/java/Circ.java, which CircCheck    *)
(* compares with them on small systems.                                       *)
EXTENDS Integers, Sequences, FiniteSets, BigField

Val(sys, dev, v) ==
  LET hits == {i \in 1..Len(dev) : dev[i][1] = v}
  IN IF hits = {} THEN Big(sys.w[v]) ELSE Big(dev[CHOOSE i \in hits : \A j \in hits : j <= i][2])

RECURSIVE Ev(_, _, _)
Ev(e, arg, p) ==
  CASE e[1] = "c" -> Big(e[2])
    [] e[1] = "v" -> arg[e[2]]
    [] e[1] = "-" -> NegB(Ev(e[2], arg, p), p)
    [] e[1] = "+" -> AddB(Ev(e[2], arg, p), Ev(e[3], arg, p), p)
    [] e[1] = "*" -> MulB(Ev(e[2], arg, p), Ev(e[3], arg, p), p)

Holds(sys, dev, c) ==
  LET con == sys.c[c]
      arg == [i \in 1..Len(con[3]) |-> Val(sys, dev, con[3][i])]
      out == [i \in 1..Len(sys.t[con[1]]) |-> Ev(sys.t[con[1]][i], arg, sys.p)]
  IN IF con[2] = 0 THEN \A i \in 1..Len(out) : out[i] = "0"
     ELSE \E r \in 1..Len(sys.tabs[con[2]]) : \A i \in 1..Len(out) : out[i] = Big(sys.tabs[con[2]][r][i])

Vars(sys, c) == {v \in {sys.c[c][3][i] : i \in 1..Len(sys.c[c][3])} : v <= sys.n}
LastVar(sys, c) == LET S == Vars(sys, c) IN IF S = {} THEN 0 ELSE CHOOSE v \in S : \A u \in S : u <= v

(* all violated constraints *)
Violated(sys, dev) == {c \in 1..Len(sys.c) : ~ Holds(sys, dev, c)}
(* the first violated constraint whose last variable is at or after pos; 0 if there is none *)
FirstBad(sys, dev, pos) ==
  LET B == {c \in Violated(sys, dev) : LastVar(sys, c) >= pos}
  IN IF B = {} THEN 0
     ELSE CHOOSE c \in B : \A d \in B : LastVar(sys, c) < LastVar(sys, d) \/ (LastVar(sys, c) = LastVar(sys, d) /\ c <= d)
(* values of variable v with which constraint c holds: all of them for an equation, at most  *)
(* `most' of them for a table (the ones nearest to the honest value first); {} may also mean *)
(* that every value will do, which cannot be the case for a violated constraint              *)
Solutions(sys, dev, c, v, most) ==
  {x \in {Big(i) : i \in 0..(Small(sys.p) - 1)} : Holds(sys, Append(dev, <<v, x>>), c)}

(* variables that can move to first order around the honest witness while the ones in fix  *)
(* stay: those that are not zero in some tangent vector of the solution set.  A table has   *)
(* finitely many rows, so what is looked up does not move.                                  *)
RECURSIVE Dir(_, _, _, _)
Dir(e, arg, d, p) ==
  CASE e[1] = "c" -> "0"
    [] e[1] = "v" -> d[e[2]]
    [] e[1] = "-" -> NegB(Dir(e[2], arg, d, p), p)
    [] e[1] = "+" -> AddB(Dir(e[2], arg, d, p), Dir(e[3], arg, d, p), p)
    [] e[1] = "*" -> AddB(MulB(Dir(e[2], arg, d, p), Ev(e[3], arg, p), p), MulB(Ev(e[2], arg, p), Dir(e[3], arg, d, p), p), p)
Tangent(sys, d) ==
  \A c \in 1..Len(sys.c) :
    LET con == sys.c[c]
        arg == [i \in 1..Len(con[3]) |-> Val(sys, <<>>, con[3][i])]
        dd  == [i \in 1..Len(con[3]) |-> IF con[3][i] <= sys.n THEN d[con[3][i]] ELSE "0"]
    IN \A i \in 1..Len(sys.t[con[1]]) : Dir(sys.t[con[1]][i], arg, dd, sys.p) = "0"
Loose(sys, fix) ==
  LET All == {Big(i) : i \in 0..(Small(sys.p) - 1)}
      T == {d \in [1..sys.n -> All] : (\A v \in fix : v <= sys.n => d[v] = "0") /\ Tangent(sys, d)}
  IN {v \in 1..sys.n : \E d \in T : d[v] # "0"}
=============================================================================
