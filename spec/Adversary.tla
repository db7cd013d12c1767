------------------------------ MODULE Adversary ------------------------------
(* A dishonest prover against a recorded gadget circuit.  It starts from the  *)
(* honest witness, changes some variables, and then repairs what it broke in  *)
(* the order of computation: the first violated constraint is satisfied again *)
(* by recomputing its last variable, in every way there is, or a variable that *)
(* no constraint defines (an inverse, a slope), from where it then goes on.   *)
(* If those were already fixed, or no value works, this attempt is caught.  If nothing  *)
(* is violated any more the circuit accepts, and the values at its interface  *)
(* must still be in the gadget's relation.                                    *)
(* Also decides the honest runs: an honest witness inside the gadget's domain *)
(* is accepted with the right outputs, one outside the domain is refused.     *)
EXTENDS GadgetRel, Circ, Report, Json
Cases == JsonDeserialize("cases.json")
VARIABLES cid, did, dev, pos, st, forks
vars == <<cid, did, dev, pos, st, forks>>

C == Cases[cid]
(* how often one attempt may branch into all repairs; after that one repair is *)
(* picked, differently in each attempt                                         *)
MaxForks == C.forks
Sys == C.sys
IoVals(d) == [i \in 1..Len(C.io) |-> Val(Sys, d, Sys.io[i])]

(* ---- honest run: what is wrong with it (0: nothing) *)
Honest ==
  LET in == InDomain(C) IN
  IF C.syn # "ok" THEN (IF in THEN "synthesis fails on an input in the domain: " \o C.syn ELSE "")
  ELSE IF in /\ C.same # TRUE THEN "the layout depends on the witness"
  ELSE IF in /\ C.mock \notin {"ok", "skipped"} THEN "honest witness refused: " \o C.mock
  ELSE IF ~in /\ C.mock = "ok" THEN "an input outside the domain is accepted"
  ELSE IF in /\ C.inst # Expected(C) THEN "outputs differ from the definition"
  ELSE IF in /\ ~ Rel(C, C.inst) THEN "outputs are not in the relation"
  ELSE IF C.flat /\ in /\ Violated(Sys, <<>>) # {} THEN "the honest witness violates the recorded constraints"
  ELSE IF C.flat /\ in /\ C.torn # <<>> THEN "cells tied together have different values"
  ELSE IF C.flat /\ ~in /\ Violated(Sys, <<>>) = {} /\ C.torn = <<>> THEN "an input outside the domain satisfies the recorded constraints"
  ELSE IF TablesOk(C) # TRUE THEN "a lookup table holds a row that is not a generator"
  ELSE ""

Init ==
  \E c \in 1..Len(Cases) :
    /\ cid = c /\ forks = 0
    /\ \/ did = 0 /\ dev = <<>> /\ pos = 0 /\ st = "honest"
       \* (= TRUE: TLC would otherwise explore both sides of the disjunctions in the domain)
       \/ Cases[c].flat /\ InDomain(Cases[c]) = TRUE /\ did = 0 /\ dev = <<>> /\ pos = 0 /\ st = "tangent"
       \/ \E d \in 1..Len(Cases[c].probes) :
            /\ InDomain(Cases[c]) = TRUE
            /\ did = d /\ dev = Cases[c].probes[d].dev /\ pos = 0 /\ st = "probe"
       \/ \E d \in 1..Len(Cases[c].splices) :
            /\ InDomain(Cases[c]) = TRUE
            /\ did = d /\ dev = Cases[c].splices[d] /\ pos = 0 /\ st = "splice"
       \/ \E d \in 1..Len(Cases[c].devs) :
            /\ InDomain(Cases[c]) = TRUE
            /\ did = d /\ dev = Cases[c].devs[d] /\ pos = Cases[c].devs[d][1][1] /\ st = "repair"

Judge ==
  /\ st = "honest"
  /\ LET h == Honest IN
       IF h # "" THEN Reject(C.id, "0: " \o h) /\ st' = "bad" ELSE Done(C.id) /\ st' = "good"
  /\ UNCHANGED <<cid, did, dev, pos, forks>>

Free == [c \in 1..Len(Cases) |-> IF Cases[c].flat
           THEN (1..Cases[c].sys.n) \ {LastVar(Cases[c].sys, b) : b \in 1..Len(Cases[c].sys.c)} ELSE {}]
Own == C.devs[did]                        \* what this attempt changes on purpose
Chosen == {dev[i][1] : i \in 1..Len(dev)}
\* undefined variables of constraint b that may still be recomputed
Loosened(b) == {u \in Vars(Sys, b) \cap Free[cid] : u > Own[1][1] /\ u \notin Chosen}
\* forget the repairs after variable u
Until(u) == SelectSeq(dev, LAMBDA e : e[1] < u \/ e[1] \in Free[cid] \/ \E i \in 1..Len(Own) : Own[i] = e)
Many(b, vs) == UNION {{<<v, x>> : x \in Solutions(Sys, dev, b, v, 3)} : v \in vs}
Repair ==
  /\ st = "repair"
  /\ LET b == FirstBad(Sys, dev, pos) IN
     IF b = 0
     THEN /\ st' = "accepted" /\ UNCHANGED <<dev, pos, forks>>
          /\ IF Rel(C, IoVals(dev)) THEN TRUE
             ELSE Reject(C.id, ToString(did) \o ": accepted outside the relation " \o ToString(dev))
     ELSE LET L == LastVar(Sys, b)
              A == IF L <= pos THEN {} ELSE Many(b, {L})
              B == IF Cardinality(Chosen \cap Free[cid]) > 60 THEN {} ELSE Many(b, Loosened(b) \ {L})
              S == A \cup B IN
          IF S = {} THEN st' = "caught" /\ UNCHANGED <<dev, pos, forks>>
          ELSE LET n == Cardinality(S)
                   one == SetToSeq(IF B # {} /\ (A = {} \/ (7 * did + pos) % 4 # 0) THEN B ELSE A)
                   T == IF n = 1 \/ forks < MaxForks THEN S ELSE {one[((7 * did + pos) % Len(one)) + 1]} IN
               /\ \E e \in T : dev' = Append(IF e[1] = L THEN dev ELSE Until(e[1]), e) /\ pos' = e[1]
               /\ st' = "repair"
               /\ forks' = IF n > 1 /\ forks < MaxForks THEN forks + 1 ELSE forks
  /\ UNCHANGED <<cid, did>>

(* a witness that was also given to the real mock prover: same verdict *)
Probe ==
  /\ st = "probe"
  /\ LET ok == Violated(Sys, dev) = {}
         real == C.probes[did].verdict IN
       IF (ok /\ real = "ok") \/ (~ok /\ real = "rejected") THEN st' = "good"
       ELSE Reject(C.id, "p" \o ToString(did) \o ": mock prover says " \o real \o " for " \o ToString(dev)) /\ st' = "bad"
  /\ UNCHANGED <<cid, did, dev, pos, forks>>

(* a part of the witness comes from another honest run of the same circuit *)
Splice ==
  /\ st = "splice"
  /\ IF Violated(Sys, dev) # {} THEN st' = "caught"
     ELSE IF Rel(C, IoVals(dev)) THEN st' = "accepted"
     ELSE Reject(C.id, "s" \o ToString(did) \o ": part of another witness is accepted, outside the relation: " \o ToString(SubSeq(dev, 1, IF Len(dev) > 8 THEN 8 ELSE Len(dev)))) /\ st' = "bad"
  /\ UNCHANGED <<cid, did, dev, pos, forks>>

(* the infinitesimal adversary: with the inputs fixed, no output can move *)
Slide ==
  /\ st = "tangent" /\ st' = "good"
  /\ LET free == Loose(Sys, {Sys.io[i] : i \in FixIdx(C)})
         bad == {i \in DetIdx(C) : Sys.io[i] \in free} IN
       IF bad = {} THEN TRUE ELSE Reject(C.id, "t: the constraints do not determine the outputs at positions " \o ToString(bad))
  /\ UNCHANGED <<cid, did, dev, pos, forks>>

Next == Judge \/ Repair \/ Probe \/ Slide \/ Splice
=============================================================================
