--------------------------------- MODULE Msm ---------------------------------
(* The deferred multi-scalar accumulator (poly/commitment/msm.rs).             *)
(*                                                                             *)
(* D[a] is what accumulator a denotes: the discrete logarithm of the sum it    *)
(* was given.  R[a] is the representation the library keeps: optional scalars  *)
(* for the fixed generators, and one scalar per x-coordinate for the other     *)
(* points, where a point and its negation share an entry.  The invariant says  *)
(* that the representation always denotes the sum.  Every behaviour to MaxLen  *)
(* is printed with the sums expected after each step and replayed into the     *)
(* real accumulator.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, Field, Json, SequencesExt, TLC

CONSTANTS MaxLen, NAcc, Big
Params == JsonDeserialize("params.json")   \* k, g, w, u (discrete logs)
P == 2013265921
NONE == -1
Add(x, y) == AddM(x, y, P)
Mul(x, y) == MulM(x, y, P)
Acc == 0..(NAcc - 1)

P1 == 11
P2 == 5000
S == 1000003
Points == {P1, P - P1, P2, 0, Params.g[1]}
Scalars == IF Big THEN {1, S, 0} ELSE {S}
Factors == IF Big THEN {0, 1, 77, P - 1} ELSE {0, 77}
Vec == TLCEval([i \in 1..Len(Params.g) |-> 10 * i + 3])

VARIABLES D, R, hist, ops
vars == <<D, R, hist, ops>>

Empty == [g |-> <<>>, w |-> NONE, u |-> NONE, other |-> <<>>]   \* other: sequence of <<x, scalar, y>>
Init == D = [a \in Acc |-> 0] /\ R = [a \in Acc |-> Empty] /\ hist = <<>> /\ ops = 0

Opt(v, s) == IF v = NONE THEN s ELSE Add(v, s)
AddG(g, v) == IF g = <<>> THEN v ELSE TLCEval([i \in DOMAIN g |-> Add(g[i], v[i])])
Unit(s) == [i \in 1..Len(Params.g) |-> IF i = 1 THEN s ELSE 0]
X(p) == Mul(p, p)
Insert(o, x, s, y) ==
    IF \E i \in DOMAIN o : o[i][1] = x
    THEN [i \in DOMAIN o |-> IF o[i][1] # x THEN o[i]
                             ELSE <<x, IF o[i][3] = y THEN Add(o[i][2], s) ELSE SubM(o[i][2], s, P), o[i][3]>>]
    ELSE Append(o, <<x, s, y>>)
RECURSIVE InsertAll(_, _)
InsertAll(o, l) == IF l = <<>> THEN o ELSE InsertAll(Insert(o, l[1][1], l[1][2], l[1][3]), Tail(l))
Merge(a, b) == [g |-> IF b.g = <<>> THEN a.g ELSE AddG(a.g, b.g),
                w |-> IF b.w = NONE THEN a.w ELSE Opt(a.w, b.w),
                u |-> IF b.u = NONE THEN a.u ELSE Opt(a.u, b.u),
                other |-> InsertAll(a.other, b.other)]
ScaleR(a, f) == [g |-> [i \in DOMAIN a.g |-> Mul(a.g[i], f)],
                 w |-> IF a.w = NONE THEN NONE ELSE Mul(a.w, f),
                 u |-> IF a.u = NONE THEN NONE ELSE Mul(a.u, f),
                 other |-> [i \in DOMAIN a.other |-> <<a.other[i][1], Mul(a.other[i][2], f), a.other[i][3]>>]]

Denote(r) ==
    LET og[i \in 0..Len(r.g)] == IF i = 0 THEN 0 ELSE Add(og[i - 1], Mul(r.g[i], Params.g[i]))
        oo[i \in 0..Len(r.other)] == IF i = 0 THEN 0 ELSE Add(oo[i - 1], Mul(r.other[i][2], r.other[i][3]))
    IN Add(Add(og[Len(r.g)], oo[Len(r.other)]),
           Add(IF r.w = NONE THEN 0 ELSE Mul(r.w, Params.w), IF r.u = NONE THEN 0 ELSE Mul(r.u, Params.u)))

Step(op, a, d, r) ==
    /\ ops < MaxLen
    /\ D' = [D EXCEPT ![a] = d] /\ R' = [R EXCEPT ![a] = r]
    /\ hist' = Append(hist, op \o <<[i \in 1..NAcc |-> IF i - 1 = a THEN d ELSE D[i - 1]]>>)
    /\ ops' = ops + 1
    /\ (ops' = MaxLen => PrintT("GEN|" \o ToJson(hist')))

Term == \E a \in Acc, s \in Scalars, p \in Points :
    Step(<<"term", a, s, p>>, a, Add(D[a], Mul(s, p)),
         IF p = 0 THEN R[a] ELSE [R[a] EXCEPT !.other = Insert(@, X(p), s, p)])
Const == \E a \in Acc, s \in Scalars :
    Step(<<"const", a, s>>, a, Add(D[a], Mul(s, Params.g[1])), [R[a] EXCEPT !.g = AddG(@, Unit(s))])
G == \E a \in Acc :
    Step(<<"g", a, Vec>>, a, Add(D[a], DotM(Vec, Params.g, P)), [R[a] EXCEPT !.g = AddG(@, Vec)])
W == \E a \in Acc, s \in Scalars :
    Step(<<"w", a, s>>, a, Add(D[a], Mul(s, Params.w)), [R[a] EXCEPT !.w = Opt(@, s)])
U == \E a \in Acc, s \in Scalars :
    Step(<<"u", a, s>>, a, Add(D[a], Mul(s, Params.u)), [R[a] EXCEPT !.u = Opt(@, s)])
Scale == \E a \in Acc, f \in Factors :
    Step(<<"scale", a, f>>, a, Mul(D[a], f), ScaleR(R[a], f))
MergeOp == \E a \in Acc, b \in Acc :
    Step(<<"merge", a, b>>, a, Add(D[a], D[b]), Merge(R[a], R[b]))
\* add what makes an accumulator the identity, so that acceptance is exercised too
Cancel == \E a \in Acc :
    /\ D[a] # 0
    /\ Step(<<"term", a, P - 1, D[a]>>, a, 0, [R[a] EXCEPT !.other = Insert(@, X(D[a]), P - 1, D[a])])

Next == Term \/ Const \/ G \/ W \/ U \/ Scale \/ MergeOp \/ Cancel
Refines == \A a \in Acc : Denote(R[a]) = D[a]
=============================================================================
