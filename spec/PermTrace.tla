------------------------------ MODULE PermTrace ------------------------------
(* C02: recover the permutation the code really built from indicator           *)
(* witnesses (cell x holds 1, every other cell 0: exactly x and the cell        *)
(* before x in its cycle fail) and check that                                   *)
(*   - its cycles are the classes of the requested equalities,                  *)
(*   - the permutation commitments of the verifying key commit to it,           *)
(*   - witnesses pass (mock prover, real proof) iff classes are constant.       *)
EXTENDS Plonkish, Json, TLC, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, pc

Case == Cases[cid]
Prog == Case.prog
Req == {<<x[1], x[2]>> : x \in ToSet(Case.req)}
CellsIn == ToSet(Case.cells)
Class(x) == Close({x}, Req)

\* the cells blamed when only x differs from the rest
Blamed(x) == ToSet((CHOOSE b \in ToSet(Case.ind) : b[1] = x)[2])
Pred(x) == IF Blamed(x) = {} THEN x ELSE CHOOSE y \in Blamed(x) : y # x
IndOk(x) == IF Class(x) = {x} THEN Blamed(x) = {}
            ELSE x \in Blamed(x) /\ Cardinality(Blamed(x)) = 2
RECURSIVE Orbit(_, _)
Orbit(x, S) == IF x \in S THEN S ELSE Orbit(Pred(x), S \cup {x})

Omega == PowM(31, 15 * 2 ^ (27 - Prog.k), P)
Delta == PowM(31, 2 ^ 27, P)
Perm == PermColumns(Prog)
Label(x) == LET i == CHOOSE i \in DOMAIN Perm : Perm[i][1] = x[1] /\ Perm[i][2] = x[2]
            IN MulM(PowM(Delta, i - 1, P), PowM(Omega, x[3], P), P)
Sigma(i, r) == LET x == <<Perm[i][1], Perm[i][2], r>>
               IN IF x \in CellsIn THEN Label(CHOOSE y \in CellsIn : Pred(y) = x) ELSE Label(x)
Commit(i) == AddM(DotM([r \in 1..N(Prog) |-> Sigma(i, r - 1)], Case.params.gl, P), Case.params.w, P)

\* value variants: <<values (cell -> value), mock verdict, proof verdict>>
ValOk(v) == \A x, y \in CellsIn : y \in Class(x) =>
              (CHOOSE b \in ToSet(v.vals) : b[1] = x)[2] = (CHOOSE b \in ToSet(v.vals) : b[1] = y)[2]

Mapping ==
    IF Case.err # "" THEN
        (IF Case.wanterr = Case.err THEN "ok" ELSE "expected '" \o Case.wanterr \o "' but got '" \o Case.err \o "'")
    ELSE IF Case.wanterr # "" THEN "equality on a column not enabled for it was accepted"
    ELSE IF \E x \in CellsIn : ~IndOk(x) THEN
        LET x == CHOOSE x \in CellsIn : ~IndOk(x) IN "cell " \o ToString(x) \o " alone blames " \o ToString(Blamed(x))
    ELSE IF \E x \in CellsIn : Orbit(x, {}) # Class(x) THEN
        LET x == CHOOSE x \in CellsIn : Orbit(x, {}) # Class(x)
        IN "cycle of " \o ToString(x) \o " is " \o ToString(Orbit(x, {})) \o ", requested class " \o ToString(Class(x))
    ELSE IF Len(Case.sigma) # Len(Perm) THEN "number of permutation commitments"
    ELSE IF \E i \in DOMAIN Perm : Case.sigma[i] # Commit(i) THEN
        "permutation commitment " \o ToString(CHOOSE i \in DOMAIN Perm : Case.sigma[i] # Commit(i)) \o " does not commit to the cycles"
    ELSE "ok"
Verdicts ==
    LET bad == {i \in DOMAIN Case.vals : LET v == Case.vals[i] ok == ValOk(v)
                IN (ok # v.mock) \/ (v.proof # "none" /\ ((v.proof = "ok") # ok))}
    IN IF bad = {} THEN "ok" ELSE "verdict on variant " \o ToString(CHOOSE i \in bad : TRUE) \o " " \o ToString(Case.vals[CHOOSE i \in bad : TRUE])

Init == cid \in DOMAIN Cases /\ pc = 0
Next == /\ pc < 2 /\ pc' = pc + 1 /\ cid' = cid
        /\ LET w == IF pc = 0 THEN Mapping ELSE Verdicts
           IN (w # "ok" => Reject(Case.id, "0: " \o w)) /\ (pc = 1 => Done(Case.id))
=============================================================================
