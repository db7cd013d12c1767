------------------------------ MODULE IpaTrace ------------------------------
(* The polynomial commitment: commitments, parameters, and the inner-product   *)
(* opening, replayed on recordings of the real prover and verifier.            *)
EXTENDS Opening, Json, Report

Cases == JsonDeserialize("cases.json")
VARIABLES cid, run, bad
Case == Cases[cid]
Pm == Case.params
NN == 2 ^ Pm.k
Om == PowM(31, 15 * 2 ^ (27 - Pm.k), PP)

\* the Lagrange generators are determined by the coefficient generators:
\* gl_i = 1/n sum_j om^(-i j) g_j
LagrangeG ==
    LET ni == Inv(NN)
    IN [i \in 1..NN |-> Mul(ni, EvalM(Pm.g, Pow(Inv(Om), i - 1), PP))]
ParamsOK == /\ Len(Pm.g) = NN /\ Len(Pm.gl) = NN
            /\ Pm.gl = TLCEval(LagrangeG)
            /\ Cardinality(ToSet(Pm.g) \cup {Pm.w, Pm.u}) = NN + 2     \* independent generators

V(ev, i) == ev[i][2]
\* events after the three common inputs
Kinds == <<"cp", "cs", "cs", "p", "sq", "sq">>
KindSeq == LET f[i \in 0..Pm.k] == IF i = 0 THEN Kinds ELSE f[i - 1] \o <<"p", "p", "sq">> IN f[Pm.k] \o <<"s", "s">>
KindsOf(ev) == [i \in DOMAIN ev |-> ev[i][1]]
Proof(ev) ==
    [S |-> V(ev, 4), xi |-> V(ev, 5), z |-> V(ev, 6),
     lr |-> [j \in 1..Pm.k |-> <<V(ev, 4 + 3 * j), V(ev, 5 + 3 * j), V(ev, 6 + 3 * j)>>],
     c |-> V(ev, 7 + 3 * Pm.k), f |-> V(ev, 8 + 3 * Pm.k)]
Us(ev) == [j \in 1..Pm.k |-> V(ev, 6 + 3 * j)]

Commit(cs, gs) == Add(DotM(cs, gs, PP), Mul(Pm.w, Case.blind))
Values == [i \in 1..NN |-> EvalM(Case.coeffs, Pow(Om, i - 1), PP)]

Why(w) == Reject(Case.id, w) /\ bad' = w
Head0 ==
    IF ~ParamsOK THEN Why("the parameters are not the generators their own definition gives")
    ELSE IF Case.v # EvalM(Case.coeffs, Case.x, PP) THEN Why("evaluation of the polynomial")
    ELSE IF TLCEval(Values) # Case.values THEN Why("coefficient form is not the interpolation of the values")
    ELSE IF Case.cc # Commit(Case.coeffs, Pm.g) THEN Why("commitment in coefficient form is not the Pedersen commitment")
    ELSE IF Case.cl # Case.cc THEN Why("commitment in Lagrange form differs")
    ELSE IF Case.pres # "ok" THEN Why("create_proof: " \o Case.pres)
    ELSE IF KindsOf(Case.pev) # TLCEval(KindSeq) THEN Why("prover message order")
    ELSE IF Case.runs[1].ev # Case.pev THEN Why("verifier transcript differs from the prover's")
    ELSE bad' = ""

Verify(r) ==
    LET ev == r.ev
        full == KindsOf(ev) = KindSeq
        res == IF full THEN IpaResidue(Pm, V(ev, 1), V(ev, 3), V(ev, 2), Proof(ev)) ELSE 1
        name == r.m \o ": "
    IN IF (r.res = "ok") # (full /\ res = 0) THEN Why(name \o "verifier says " \o r.res \o " but its equation is off by " \o ToString(res))
       ELSE IF r.m = "none" /\ r.res # "ok" THEN Why("true evaluation rejected: " \o r.res)
       ELSE IF r.m # "none" /\ r.res = "ok" THEN Why(name \o "accepted although altered")
       ELSE IF r.res \notin {"ok", "rejected", "Opening"} THEN Why(name \o r.res)
       ELSE IF full /\ r.x.g # FoldG(Pm.g, Us(ev)) THEN Why(name \o "computed generator")
       ELSE IF full /\ r.x.accg # r.x.g THEN Why(name \o "accumulator generator")
       ELSE IF full /\ r.x.packed # Us(ev) THEN Why(name \o "accumulator challenges")
       ELSE IF full /\ r.x.useg # (r.res = "ok") THEN Why(name \o "delayed verification gives another verdict")
       ELSE IF full /\ r.res = "ok" /\ r.x.wrongg # (V(ev, 7 + 3 * Pm.k) = 0) THEN Why(name \o "accepted with a wrong generator")
       ELSE bad' = ""

Init == cid \in DOMAIN Cases /\ run = 0 /\ bad = ""
Next == /\ bad = "" /\ run <= Len(Case.runs)
        /\ cid' = cid
        /\ run' = run + 1
        /\ IF run = 0 THEN Head0 ELSE Verify(Case.runs[run])
        /\ (bad' = "" /\ run = Len(Case.runs)) => Done(Case.id)
=============================================================================
