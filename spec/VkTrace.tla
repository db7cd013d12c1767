------------------------------- MODULE VkTrace -------------------------------
(* C16: a key stands for the circuit - for its constraint system, its fixed    *)
(* contents and its copy constraints, and for nothing else.  Two circuits are  *)
(* the same only if their canonical descriptions are; circuits that differ     *)
(* have different digests and refuse each other's proofs; every way of making  *)
(* the key of one circuit gives the same key.                                  *)
EXTENDS Plonkish, Json, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, i
Case == Cases[cid]

\* an expression with its selectors replaced by the rows they are on
RECURSIVE Canon(_, _)
Canon(e, g) ==
    CASE e[1] = "s" -> <<"s", {r \in DOMAIN g.sel[e[2]] : g.sel[e[2]][r] = 1}>>
      [] e[1] \in {"c", "f", "a", "i"} -> e
      [] e[1] = "-" -> <<"-", Canon(e[2], g)>>
      [] e[1] \in {"+", "*"} -> <<e[1], Canon(e[2], g), Canon(e[3], g)>>
      [] OTHER -> <<"k", Canon(e[2], g), e[3]>>
Describe(p, ev) ==
    LET g == TLCEval(ApplyFrom(p, EmptyGrid(p), ev, 1))
    IN [k |-> p.k, cols |-> <<NAdv(p), NFix(p), NInst(p)>>, degree |-> CsDegree(p), perm |-> PermColumns(p), consts |-> p.consts,
        gates |-> FlattenSeq([j \in DOMAIN p.gates |-> LET ps == GatePolys(p.gates[j]) IN [m \in DOMAIN ps |-> ToString(Canon(ps[m], g))]]),
        lookups |-> [j \in DOMAIN p.lookups |-> [m \in DOMAIN p.lookups[j] |-> <<ToString(Canon(p.lookups[j][m][1], g)), p.lookups[j][m][2]>>]],
        fixed |-> [c \in DOMAIN g.fix |-> [r \in 0..(Usable(p) - 1) |-> g.fix[c][r]]],
        copies |-> {c \in Classes(Copies(ev)) : Cardinality(c) > 1}]
Base == TLCEval(Describe(Case.progs[1], Case.made[1].rec.ev))

Made(m) ==
    IF m.res # "ok" THEN "ok"
    ELSE IF m.errs # <<>> THEN "a key of this circuit is refused: " \o m.errs[1]
    ELSE IF \E j \in DOMAIN m.digests : m.digests[j] # m.digests[1] THEN "the digest depends on the run or on the witness"
    ELSE IF \E j \in DOMAIN m.pins : m.pins[j] # m.pins[1] THEN "the pinned key depends on the run or on the witness"
    ELSE IF ~m.sameproof THEN "proving keys of the same circuit make different proofs"
    ELSE "ok"
Pair(j) ==
    LET m == Case.made[j]
    IN IF m.res # "ok" \/ Case.made[1].res # "ok" \/ j = 1 THEN "ok"
       ELSE IF Describe(Case.progs[j], m.rec.ev) = Base THEN "ok"
       ELSE IF m.digests[1] = Case.made[1].digests[1] THEN "same digest as the original circuit"
       ELSE IF m.pins[1] = Case.made[1].pins[1] THEN "same pinned key as the original circuit"
       ELSE IF \E x \in ToSet(Case.cross) : {x[1], x[2]} = {0, j - 1} /\ x[3] = "ok" THEN "a proof is accepted under the other key"
       ELSE "ok"
Init == cid \in DOMAIN Cases /\ i = 0
Next == /\ i < Len(Case.made) /\ i' = i + 1 /\ cid' = cid
        /\ LET ws == <<Made(Case.made[i']), Pair(i')>>
               bad == SelectSeq(ws, LAMBDA w : w # "ok")
           IN (bad # <<>> => Reject(Case.id, ToString(i' - 1) \o ": " \o bad[1])) /\ (i' = Len(Case.made) => Done(Case.id))
=============================================================================
