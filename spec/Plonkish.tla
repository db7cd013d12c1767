------------------------------ MODULE Plonkish ------------------------------
(* The meaning of a scripted PLONKish circuit: its constraint system, the    *)
(* grid its assignments denote, and which constraints a grid violates.       *)
(*                                                                           *)
(* A program p is the JSON record the harness interprets through the real    *)
(* API:                                                                      *)
(*   p.k, p.cols (sequence over "a","f","t","i","s","x"), p.eq, p.consts,    *)
(*   p.gates[i].polys / .sel, p.lookups[i] = <<<<expr, table column>>,...>>, *)
(*   p.ops, p.inst[variant][column].                                         *)
(* Column numbers are 0-based, as in the code; JSON arrays are 1-based       *)
(* sequences, hence At(_, _).                                                *)
EXTENDS Integers, Sequences, FiniteSets, Field, SequencesExt, FiniteSetsExt, TLC

P == 2013265921
POISON == -1

At(s, i) == s[i + 1]
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y

N(p) == 2 ^ p.k

Kinds(p, ks) == SelectSeq(p.cols, LAMBDA c : c \in ks)
NAdv(p) == Len(Kinds(p, {"a"}))
NFix(p) == Len(Kinds(p, {"f", "t"}))
NInst(p) == Len(Kinds(p, {"i"}))
NSel(p) == Len(Kinds(p, {"s", "x"}))
Simple(p, i) == At(Kinds(p, {"s", "x"}), i) = "s"

---------------------------------------------------------------------------
(* Expressions: <<"c",v>> <<"s",i>> <<"f",i>> <<"a",i,rot>> <<"i",i,rot>>    *)
(* <<"-",e>> <<"+",e1,e2>> <<"*",e1,e2>> <<"k",e,v>>                          *)
RECURSIVE Queries(_)
Queries(e) ==
    CASE e[1] = "c" -> {}
      [] e[1] = "s" -> {<<"s", e[2], 0>>}
      [] e[1] = "f" -> {<<"f", e[2], 0>>}
      [] e[1] \in {"a", "i"} -> {<<e[1], e[2], e[3]>>}
      [] e[1] = "-" -> Queries(e[2])
      [] e[1] \in {"+", "*"} -> Queries(e[2]) \cup Queries(e[3])
      [] OTHER -> Queries(e[2])

RECURSIVE Degree(_)
Degree(e) ==
    CASE e[1] = "c" -> 0
      [] e[1] \in {"s", "f", "a", "i"} -> 1
      [] e[1] = "-" -> Degree(e[2])
      [] e[1] = "+" -> MaxOf({Degree(e[2]), Degree(e[3])}, 0)
      [] e[1] = "*" -> Degree(e[2]) + Degree(e[3])
      [] OTHER -> Degree(e[2])

\* the polynomials of gate g, with its common selector multiplied in
GatePolys(g) ==
    IF g.sel = <<>> THEN g.polys
    ELSE [i \in DOMAIN g.polys |-> <<"*", g.sel, g.polys[i]>>]

GateQueries(g) == UNION {Queries(GatePolys(g)[i]) : i \in DOMAIN g.polys}
LookupQueries(l) == UNION {Queries(l[i][1]) \cup {<<"f", l[i][2], 0>>} : i \in DOMAIN l}

\* columns in the permutation, in order of being enabled
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(Front(s)) IN IF Last(s) \in ToSet(r) THEN r ELSE Append(r, Last(s))
PermColumns(p) == Dedup(p.eq \o [i \in DOMAIN p.consts |-> <<"f", p.consts[i]>>])

AllQueries(p) ==
    UNION {GateQueries(p.gates[i]) : i \in DOMAIN p.gates}
    \cup UNION {LookupQueries(p.lookups[i]) : i \in DOMAIN p.lookups}
    \cup {<<c[1], c[2], 0>> : c \in ToSet(PermColumns(p))}

\* the number of rows the prover must keep random so that what it reveals is blinded
BlindingFactors(p) ==
    LET qs == AllQueries(p)
        per == {Cardinality({q \in qs : q[1] = "a" /\ q[2] = c}) : c \in 0..(NAdv(p) - 1)}
    IN MaxOf(per \cup {3}, 3) + 2

Usable(p) == N(p) - (BlindingFactors(p) + 1)
MinimumRows(p) == BlindingFactors(p) + 3

LookupDegree(l) ==
    LET i == MaxOf({Degree(l[j][1]) : j \in DOMAIN l} \cup {1}, 1)
    IN MaxOf({4, 2 + i + 1}, 4)
CsDegree(p) ==
    MaxOf({3, p.mindeg}
          \cup {LookupDegree(p.lookups[i]) : i \in DOMAIN p.lookups}
          \cup UNION {{Degree(GatePolys(p.gates[i])[j]) : j \in DOMAIN p.gates[i].polys} : i \in DOMAIN p.gates}, 3)

---------------------------------------------------------------------------
(* Grids                                                                     *)
\* (TLCEval only makes TLC tabulate a function instead of re-evaluating its body)
EmptyGrid(p) ==
    LET u == Usable(p)
        rows == 0..(N(p) - 1)
        poisoned == TLCEval([r \in rows |-> IF r < u THEN 0 ELSE POISON])
        zero == TLCEval([r \in rows |-> 0])
    IN [adv |-> TLCEval([c \in 0..(NAdv(p) - 1) |-> poisoned]),
        fix |-> TLCEval([c \in 0..(NFix(p) - 1) |-> zero]),
        sel |-> TLCEval([s \in 0..(NSel(p) - 1) |-> zero]),
        inst |-> TLCEval([c \in 0..(NInst(p) - 1) |-> zero])]

WithInstance(p, g, inst) ==
    [g EXCEPT !.inst = TLCEval([c \in 0..(NInst(p) - 1) |->
        TLCEval([r \in 0..(N(p) - 1) |-> IF r < Len(At(inst, c)) THEN At(At(inst, c), r) ELSE 0])])]

\* the effect of one backend call on the grid
ApplyEvent(p, g, e) ==
    CASE e.e = "sel" -> [g EXCEPT !.sel[e.c][e.r] = 1]
      [] e.e = "adv" -> [g EXCEPT !.adv[e.c][e.r] = e.v]
      [] e.e = "fix" -> [g EXCEPT !.fix[e.c][e.r] = e.v]
      [] e.e = "fill" -> [g EXCEPT !.fix[e.c] = TLCEval([r \in 0..(N(p) - 1) |->
                              IF r >= e.r /\ r < Usable(p) THEN e.v ELSE g.fix[e.c][r]])]
      [] OTHER -> g

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(p, g, ev, i) == IF i > Len(ev) THEN g ELSE ApplyFrom(p, ApplyEvent(p, g, ev[i]), ev, i + 1)
GridOf(p, ev, inst) == WithInstance(p, ApplyFrom(p, EmptyGrid(p), ev, 1), inst)

(* Evaluation on a row, rotations wrapping around; a cell in the blinding     *)
(* rows of an advice column holds an unknown value (POISON), which only a     *)
(* multiplication by zero neutralises.                                        *)
PAdd(a, b) == IF a = POISON \/ b = POISON THEN POISON ELSE AddM(a, b, P)
PMul(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE IF a = POISON \/ b = POISON THEN POISON ELSE MulM(a, b, P)
PNeg(a) == IF a = POISON THEN POISON ELSE NegM(a, P)

RECURSIVE Eval(_, _, _, _)
Eval(p, g, e, r) ==
    CASE e[1] = "c" -> e[2] % P
      [] e[1] = "s" -> g.sel[e[2]][r]
      [] e[1] = "f" -> g.fix[e[2]][r]
      [] e[1] = "a" -> g.adv[e[2]][(r + e[3] + N(p)) % N(p)]
      [] e[1] = "i" -> g.inst[e[2]][(r + e[3] + N(p)) % N(p)]
      [] e[1] = "-" -> PNeg(Eval(p, g, e[2], r))
      [] e[1] = "+" -> PAdd(Eval(p, g, e[2], r), Eval(p, g, e[3], r))
      [] e[1] = "*" -> PMul(Eval(p, g, e[2], r), Eval(p, g, e[3], r))
      [] OTHER -> PMul(Eval(p, g, e[2], r), e[3] % P)

---------------------------------------------------------------------------
(* Violations                                                                 *)
\* {<<gate, poly, row>>} that are definitely non-zero / undetermined
GateViol(p, g) ==
    UNION {UNION {{<<i - 1, j - 1, r>> : r \in {r \in 0..(N(p) - 1) : Eval(p, g, GatePolys(p.gates[i])[j], r) \notin {0, POISON}}}
                  : j \in DOMAIN p.gates[i].polys} : i \in DOMAIN p.gates}
GatePoison(p, g) ==
    UNION {{<<i - 1, j - 1>> : j \in {j \in DOMAIN p.gates[i].polys :
              \E r \in 0..(N(p) - 1) : Eval(p, g, GatePolys(p.gates[i])[j], r) = POISON}} : i \in DOMAIN p.gates}

Tuple(p, g, l, r) == [j \in DOMAIN l |-> Eval(p, g, l[j][1], r)]
TableTuple(g, l, r) == [j \in DOMAIN l |-> g.fix[l[j][2]][r]]
Table(p, g, l) == {TableTuple(g, l, r) : r \in 0..(Usable(p) - 1)}
\* {<<lookup, row>>} whose input is in no row of the table
LookupViol(p, g) ==
    UNION {LET tb == Table(p, g, p.lookups[i])
           IN {<<i - 1, r>> : r \in {r \in 0..(Usable(p) - 1) : Tuple(p, g, p.lookups[i], r) \notin tb}}
           : i \in DOMAIN p.lookups}

CellVal(g, c) == CASE c[1] = "a" -> g.adv[c[2]][c[3]]
                   [] c[1] = "f" -> g.fix[c[2]][c[3]]
                   [] OTHER -> g.inst[c[2]][c[3]]

\* copies: set of pairs of cells <<kind, column, row>>
Copies(ev) == {<<e.a, e.b>> : e \in {ev[i] : i \in {i \in DOMAIN ev : ev[i].e = "copy"}}}
CopyViol(g, cs) == {c \in cs : CellVal(g, c[1]) # CellVal(g, c[2])}

\* the equivalence class of a cell under a set of pairs
RECURSIVE Close(_, _)
Close(S, cs) ==
    LET T == S \cup {c[2] : c \in {c \in cs : c[1] \in S}} \cup {c[1] : c \in {c \in cs : c[2] \in S}}
    IN IF T = S THEN S ELSE Close(T, cs)
Classes(cs) ==
    LET cells == {c[1] : c \in cs} \cup {c[2] : c \in cs}
    IN {Close({x}, cs) : x \in cells}
=============================================================================
