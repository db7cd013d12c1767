----------------------------- MODULE BoundTrace -----------------------------
(* C14: the row discipline.  A circuit of 2^k rows has Usable rows, fewer than *)
(* 2^k by the blinding rows its constraint system needs and one more; every    *)
(* stage refuses what reaches outside them and nothing else.                   *)
(*   keys     : selectors, fixed cells, copies, table fills                    *)
(*   prover   : advice cells (and instance queries, which are copies too)      *)
(*   mock     : all of them                                                    *)
(* Instance vectors: one per instance column, none longer than Usable.         *)
EXTENDS Plonkish, Json, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, pc
Case == Cases[cid]
Prog == Case.prog

Rows(e) == CASE e.e \in {"sel", "adv", "fix", "fill"} -> {e.r}
             [] e.e = "copy" -> {e.a[3], e.b[3]}
             [] OTHER -> {}
OutOf(p, ev, kinds) == {i \in DOMAIN ev : ev[i].e \in kinds /\ \E r \in Rows(ev[i]) : r >= Usable(p)}
Beyond(p, asked) == \E i \in DOMAIN asked : asked[i] >= Usable(p)    \* rows of instance columns read while laying out
TooSmall(p) == N(p) < MinimumRows(p)
Rows1 == "NotEnoughRowsAvailable"
\* instance queries made while laying out: recorded as the copy that follows each
KeyErrs(p, ev, asked) == IF TooSmall(p) THEN {Rows1} ELSE IF OutOf(p, ev, {"sel", "fix", "copy", "fill"}) # {} \/ Beyond(p, asked) THEN {Rows1} ELSE {}
InstErrs(p, inst) == (IF Len(inst) # NInst(p) THEN {"InvalidInstances"} ELSE {})
                     \cup (IF \E c \in DOMAIN inst : Len(inst[c]) > Usable(p) THEN {"InstanceTooLarge"} ELSE {})
MockErrs(p, ev, asked, inst) == IF TooSmall(p) THEN {Rows1}
                         ELSE InstErrs(p, inst) \cup (IF OutOf(p, ev, {"sel", "fix", "copy", "fill", "adv"}) # {} \/ Beyond(p, asked) THEN {Rows1} ELSE {})
\* advice rows, and the rows of instance columns asked for while laying out
ProveErrs(p, ev, insts, nc) ==
    (IF Len(insts) # nc THEN {"InvalidInstances"} ELSE {})
    \cup UNION {InstErrs(p, insts[i]) : i \in DOMAIN insts}
    \cup (IF OutOf(p, ev, {"adv"}) # {} \/ Beyond(p, Case.asked) THEN {Rows1} ELSE {})
VerifyErrs(p, insts) == UNION {InstErrs(p, insts[i]) : i \in DOMAIN insts}

Agree(res, errs) == IF errs = {} THEN res = "ok" ELSE res \in errs
Want(errs) == IF errs = {} THEN "accepted" ELSE ToString(errs)

\* advice of variant v replaces the recorded (variant 0) values: the programs of this check
\* have the same witness in every variant, only the instances differ
Holds(p, ev, inst) ==
    LET g == TLCEval(GridOf(p, ev, inst))
    IN GateViol(p, g) = {} /\ GatePoison(p, g) = {} /\ LookupViol(p, g) = {} /\ CopyViol(g, Copies(ev)) = {}

Stage1 ==
    IF Case.cs.bf # BlindingFactors(Prog) THEN "blinding_factors() = " \o ToString(Case.cs.bf) \o ", specified " \o ToString(BlindingFactors(Prog))
    ELSE IF Case.cs.minrows # MinimumRows(Prog) THEN "minimum_rows()"
    ELSE IF Case.rec.res # "ok" THEN "layout: " \o Case.rec.res
    ELSE IF ~Agree(Case.vk, KeyErrs(Prog, Case.rec.ev, Case.asked)) THEN "verifying key: " \o Case.vk \o ", specified " \o Want(KeyErrs(Prog, Case.rec.ev, Case.asked))
    ELSE IF Case.vk = "ok" /\ Case.pk # "ok" THEN "proving key: " \o Case.pk
    ELSE LET bad == {i \in DOMAIN Case.mock : ~Agree(Case.mock[i].res, MockErrs(Prog, Case.rec.ev, Case.asked, Prog.inst[i]))}
         IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN
                "mock prover, instances " \o ToString(i) \o ": " \o Case.mock[i].res \o ", specified " \o Want(MockErrs(Prog, Case.rec.ev, Case.asked, Prog.inst[i]))
            ELSE LET off == {i \in DOMAIN Case.mock : Case.mock[i].res = "ok" /\ (Case.mock[i].n = 0) # Holds(Prog, Case.rec.ev, Prog.inst[i])}
                 IN IF off # {} THEN "mock verdict " \o ToString(CHOOSE i \in off : TRUE) ELSE "ok"

Stage2 ==
    LET ev == Case.rec.ev
        pe(i) == ProveErrs(Prog, ev, Case.sets[i].inst, Len(Case.sets[i].vs))
        \* an input missing from its table stops the prover
        missing(i) == \E j \in DOMAIN Case.sets[i].inst : LookupViol(Prog, TLCEval(GridOf(Prog, ev, Case.sets[i].inst[j]))) # {}
        bad == {i \in DOMAIN Case.proofs : IF pe(i) = {} /\ missing(i) THEN Case.proofs[i].prove # "ConstraintSystemFailure"
                                           ELSE ~Agree(Case.proofs[i].prove, pe(i))}
        hold(i) == \A j \in DOMAIN Case.sets[i].inst : Holds(Prog, ev, Case.sets[i].inst[j])
        off == {i \in DOMAIN Case.proofs : Case.proofs[i].prove = "ok" /\ (Case.proofs[i].verify = "ok") # hold(i)}
        ve(i) == VerifyErrs(Prog, Case.sets[i].inst)
        vbad == {i \in DOMAIN Case.proofs : Case.proofs[i].other # "none" /\ ve(i) # {} /\ Case.proofs[i].other \notin ve(i)}
    IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN "prover, set " \o ToString(i) \o ": " \o Case.proofs[i].prove \o ", specified " \o Want(pe(i))
       ELSE IF off # {} THEN "verdict on the proof of set " \o ToString(CHOOSE i \in off : TRUE)
       ELSE IF vbad # {} THEN LET i == CHOOSE i \in vbad : TRUE IN "verifier, instances of set " \o ToString(i) \o ": " \o Case.proofs[i].other \o ", specified " \o Want(ve(i))
       ELSE "ok"

\* the same constraint system synthesised differently than at key generation
Stage3 ==
    IF Case.vk # "ok" \/ Case.prog2.k = 0 THEN "ok"
    ELSE LET p2 == Case.prog2
             ev == Case.rec2.ev
             oerr(kinds) == IF OutOf(p2, ev, kinds) # {} THEN {Rows1} ELSE {}
             asked == IF Beyond(p2, Case.asked2) THEN {Rows1} ELSE {}
             p2err == oerr({"adv"}) \cup asked \cup InstErrs(p2, p2.inst[1])
         IN IF ~Agree(Case.pk2, KeyErrs(p2, ev, Case.asked2)) THEN "proving key of the second circuit: " \o Case.pk2 \o ", specified " \o Want(KeyErrs(p2, ev, Case.asked2))
            ELSE IF ~Agree(Case.mock2[1].res, MockErrs(p2, ev, Case.asked2, p2.inst[1])) THEN "mock of the second circuit: " \o Case.mock2[1].res
            ELSE IF ~Agree(Case.prove2, p2err) /\ ~(p2err = {} /\ Case.prove2 = "ConstraintSystemFailure") THEN "prover on the second circuit: " \o Case.prove2 \o ", specified " \o Want(p2err)
            ELSE "ok"

Init == cid \in DOMAIN Cases /\ pc = 0
Next == /\ pc < 3 /\ pc' = pc + 1 /\ cid' = cid
        /\ LET w == CASE pc = 0 -> Stage1 [] pc = 1 -> Stage2 [] OTHER -> Stage3
           IN (w # "ok" => Reject(Case.id, "0: " \o w)) /\ (pc = 2 => Done(Case.id))
=============================================================================
