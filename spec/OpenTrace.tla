------------------------------ MODULE OpenTrace ------------------------------
(* Multi-point openings recorded from the real prover and verifier, replayed   *)
(* through the grouping and the equations of Opening.tla.                      *)
EXTENDS Opening, Json, Report

Cases == JsonDeserialize("cases.json")
VARIABLES cid, run, bad
Case == Cases[cid]
Pm == Case.params

V(ev, i) == ev[i][2]
KindsOf(ev) == [i \in DOMAIN ev |-> ev[i][1]]
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
KindSeq(nsets) == <<"sq", "sq", "p", "sq">> \o Rep(<<"s">>, nsets) \o <<"sq", "p", "sq", "sq">> \o Rep(<<"p", "p", "sq">>, Pm.k) \o <<"s", "s">>

Queries(r) == [i \in DOMAIN Case.queries |-> [l |-> Case.queries[i][1], c |-> r.coms[Case.queries[i][1] + 1], pt |-> r.pts[i], v |-> r.evals[i]]]
Residue(ev, qs, nsets) ==
    LET o == [x1 |-> V(ev, 1), x2 |-> V(ev, 2), qp |-> V(ev, 3), x3 |-> V(ev, 4),
              u |-> [i \in 1..nsets |-> V(ev, 4 + i)], x4 |-> V(ev, 5 + nsets)]
        b == 5 + nsets
        a == [S |-> V(ev, b + 1), xi |-> V(ev, b + 2), z |-> V(ev, b + 3),
              lr |-> [j \in 1..Pm.k |-> <<V(ev, b + 1 + 3 * j), V(ev, b + 2 + 3 * j), V(ev, b + 3 + 3 * j)>>],
              c |-> V(ev, b + 4 + 3 * Pm.k), f |-> V(ev, b + 5 + 3 * Pm.k)]
        cl == TLCEval(MultiClaim(qs, o))
    IN IpaResidue(Pm, cl.P, o.x3, cl.v, a)

Why(w) == Reject(Case.id, w) /\ bad' = w
TrueEval(i) == EvalM(Case.polys[Case.queries[i][1] + 1], Case.points[Case.queries[i][2] + 1], PP)
ProverDup == \E i, j \in DOMAIN Case.queries : i < j /\ Case.queries[i][1] = Case.queries[j][1]
                                               /\ Case.points[Case.queries[i][2] + 1] = Case.points[Case.queries[j][2] + 1]
Head0 ==
    IF \E i \in DOMAIN Case.polys : Case.coms[i] # Add(DotM(Case.polys[i], Pm.g, PP), Mul(Pm.w, Case.blinds[i])) THEN Why("commitment")
    ELSE IF \E i \in DOMAIN Case.queries : Case.evals[i] # TrueEval(i) THEN Why("evaluation")
    ELSE IF ProverDup THEN (IF Case.pres = "ok" THEN Why("prover opened a repeated query") ELSE bad' = "")
    ELSE IF Case.pres # "ok" THEN Why("create_proof: " \o Case.pres)
    ELSE IF Case.runs[1].ev # Case.pev THEN Why("verifier transcript differs from the prover's")
    ELSE bad' = ""

\* a polynomial may take the claimed value at the moved point too
StillTrue(r) == \A i \in DOMAIN Case.queries : r.evals[i] = EvalM(Case.polys[Case.queries[i][1] + 1], r.pts[i], PP)

Verify(r) ==
    LET qs == TLCEval(Queries(r))
        grp == TLCEval(Grouping(qs))
        ns == Len(grp.sets)
        full == KindsOf(r.ev) = KindSeq(ns)
        res == IF full /\ ~grp.dup THEN Residue(r.ev, qs, ns) ELSE 1
    IN IF r.res \notin {"ok", "rejected", "Opening"} THEN Why(r.m \o ": " \o r.res)
       ELSE IF grp.dup THEN (IF r.res = "ok" THEN Why(r.m \o ": accepted a repeated query") ELSE bad' = "")
       ELSE IF (r.res = "ok") # (full /\ res = 0) THEN Why(r.m \o ": verifier says " \o r.res \o " but its equation is off by " \o ToString(res))
       ELSE IF r.m = "none" /\ r.res # "ok" THEN Why("true evaluations rejected: " \o r.res)
       ELSE IF r.m # "none" /\ r.res = "ok" /\ ~(r.m = "point" /\ StillTrue(r)) THEN Why(r.m \o ": accepted although altered")
       ELSE bad' = ""

Init == cid \in DOMAIN Cases /\ run = 0 /\ bad = ""
Next == /\ bad = "" /\ run <= Len(Case.runs)
        /\ cid' = cid /\ run' = run + 1
        /\ IF run = 0 THEN Head0 ELSE IF ProverDup /\ run > 1 THEN bad' = "" ELSE Verify(Case.runs[run])
        /\ (bad' = "" /\ run = Len(Case.runs)) => Done(Case.id)
=============================================================================
