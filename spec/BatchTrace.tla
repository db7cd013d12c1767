----------------------------- MODULE BatchTrace -----------------------------
(* Fractions evaluated in a batch: fixed columns in key generation (their      *)
(* commitments), advice columns in proving (every cell is copied to a public   *)
(* input holding its value, in circuit 1 one of them off).                     *)
EXTENDS Integers, Sequences, FiniteSets, Field, SequencesExt, Json, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, stop
P == 2013265921
Case == Cases[cid]
E(a) == IF Len(a) = 1 THEN a[1] ELSE MulM(a[1], InvM(a[2], P), P)
Commit(c) ==
    LET cs == SelectSeq(Case.cells, LAMBDA x : x[1] = c)
        f[i \in 0..Len(cs)] == IF i = 0 THEN Case.w ELSE AddM(f[i - 1], MulM(E(cs[i][3]), Case.gl[cs[i][2] + 1], P), P)
    IN f[Len(cs)]
Init == cid \in DOMAIN Cases /\ stop = FALSE
Next ==
    /\ ~stop /\ stop' = TRUE /\ cid' = cid
    /\ LET bad == {c \in DOMAIN Case.fixed : Case.fixed[c] # Commit(c - 1)}
       IN IF bad # {} THEN Reject(Case.id, "0: fixed column " \o ToString(CHOOSE c \in bad : TRUE) \o " does not hold the values of its fractions")
          ELSE IF Case.verdict[1] # "ok" \/ Case.mock[1] # "ok0" THEN Reject(Case.id, "0: the public values of the cells are rejected: " \o Case.verdict[1] \o " " \o Case.mock[1])
          ELSE IF ~Case.same /\ (Case.verdict[2] = "ok" \/ Case.mock[2] = "ok0") THEN Reject(Case.id, "0: a wrong public value of a cell is accepted")
          ELSE Done(Case.id)
=============================================================================
