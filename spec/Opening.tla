------------------------------- MODULE Opening -------------------------------
(* The multi-point opening and the inner-product argument, over a transparent *)
(* group: a commitment is its discrete log, so the verifier's final group     *)
(* equation is one equation in the field, evaluated here exactly.             *)
EXTENDS Integers, Sequences, FiniteSets, Field, SequencesExt, FiniteSetsExt, TLC

PP == 2013265921
Mul(a, b) == MulM(a, b, PP)
Add(a, b) == AddM(a, b, PP)
Sub(a, b) == SubM(a, b, PP)
Neg(a) == NegM(a, PP)
Inv(a) == InvM(a, PP)
Pow(a, e) == PowM(a, e, PP)

RECURSIVE Horner(_, _, _)
\* ((s1 * x + s2) * x + ...)
Horner(s, x, acc) == IF s = <<>> THEN acc ELSE Horner(Tail(s), x, Add(Mul(acc, x), Head(s)))
Fold(s, x) == Horner(s, x, 0)

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Mul(Head(s), Prod(Tail(s)))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Add(Head(s), Sum(Tail(s)))

\* value at x of the polynomial of least degree through (pts[i], vs[i])
InterpAt(pts, vs, x) ==
    Sum([i \in DOMAIN pts |->
        Mul(vs[i], Prod([j \in DOMAIN pts |-> IF j = i THEN 1 ELSE Mul(Sub(x, pts[j]), Inv(Sub(pts[i], pts[j])))]))])

RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF Head(s) \in ToSet(acc) THEN acc ELSE Append(acc, Head(s)))

(* Queries: sequence of [l: commitment identity, c: its dlog, pt, v].          *)
(* Commitments opened at the same set of points form one group.               *)
Grouping(qs) ==
    LET labels == Uniq([i \in DOMAIN qs |-> qs[i].l], <<>>)
        points == Uniq([i \in DOMAIN qs |-> qs[i].pt], <<>>)
        ptset(l) == {qs[i].pt : i \in {i \in DOMAIN qs : qs[i].l = l}}
        psets == TLCEval([i \in DOMAIN labels |-> ptset(labels[i])])
        sets == Uniq(psets, <<>>)
    IN [labels |-> labels, sets |-> [s \in DOMAIN sets |-> SelectSeq(points, LAMBDA p : p \in sets[s])],
        members |-> [s \in DOMAIN sets |-> SelectSeq(labels, LAMBDA l : ptset(l) = sets[s])],
        dup |-> \E i, j \in DOMAIN qs : i # j /\ qs[i].l = qs[j].l /\ qs[i].pt = qs[j].pt]
NumSets(qs) == Len(Grouping(qs).sets)

\* o = [x1, x2, qp, x3, u, x4]: the claim left for the single opening: commitment P, point x3, value v
MultiClaim(qs, o) ==
    LET g == Grouping(qs)
        sets == TLCEval(g.sets)
        members == TLCEval(g.members)
        q(l, pt) == CHOOSE x \in ToSet(qs) : x.l = l /\ x.pt = pt
        com(l) == (CHOOSE x \in ToSet(qs) : x.l = l).c
        qc(s) == Fold([i \in DOMAIN members[s] |-> com(members[s][i])], o.x1)
        qe(s) == [j \in DOMAIN sets[s] |-> Fold([i \in DOMAIN members[s] |-> q(members[s][i], sets[s][j]).v], o.x1)]
        term(s) == Mul(Sub(o.u[s], InterpAt(sets[s], qe(s), o.x3)),
                       Inv(Prod([j \in DOMAIN sets[s] |-> Sub(o.x3, sets[s][j])])))
        fx3 == Fold([s \in DOMAIN sets |-> term(s)], o.x2)
    IN [P |-> Horner([s \in DOMAIN sets |-> qc(s)], o.x4, o.qp),
        v |-> Horner(o.u, o.x4, fx3)]

\* fold the generators: g'_i = g_i + u * g_{i + half}
RECURSIVE FoldG(_, _)
FoldG(g, us) == IF us = <<>> THEN g[1]
                ELSE LET h == Len(g) \div 2
                     IN FoldG(TLCEval([i \in 1..h |-> Add(g[i], Mul(Head(us), g[i + h]))]), Tail(us))
\* prod over rounds of (1 + u_j * x^(2^(k-j)))
RECURSIVE BAt(_, _)
BAt(us, x) == IF us = <<>> THEN 1 ELSE Mul(Add(1, Mul(Last(us), x)), BAt(Front(us), Mul(x, x)))

\* a = [S, xi, z, lr: sequence of <<L, R, u>>, c, f]; zero iff the opening of P at x to v is accepted
IpaResidue(params, P, x, v, a) ==
    LET us == [i \in DOMAIN a.lr |-> a.lr[i][3]]
        lhs == Add(Sub(P, Mul(v, params.g[1])),
               Add(Mul(a.xi, a.S),
                   Sum([i \in DOMAIN a.lr |-> Add(Mul(Inv(a.lr[i][3]), a.lr[i][1]), Mul(a.lr[i][3], a.lr[i][2]))])))
        rhs == Add(Mul(a.c, Add(FoldG(params.g, us), Mul(Mul(BAt(us, x), a.z), params.u))), Mul(a.f, params.w))
    IN Sub(lhs, rhs)
=============================================================================
