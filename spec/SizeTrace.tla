------------------------------ MODULE SizeTrace ------------------------------
(* C23: the length of a proof, counted from the messages the protocol sends    *)
(* (the phases of ProofTrace), against what the cost model predicts and the    *)
(* bytes real proofs have.                                                     *)
EXTENDS Plonkish, Json, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid
Case == Cases[cid]
Prog == Case.prog
VK == Case.vk

VDegree == MaxOf({3, Prog.mindeg} \cup {Degree(VK.gates[i]) : i \in DOMAIN VK.gates}
                 \cup {MaxOf({4, 2 + MaxOf({Degree(l.i[j]) : j \in DOMAIN l.i} \cup {1}, 1) + MaxOf({Degree(l.t[j]) : j \in DOMAIN l.t} \cup {1}, 1)}, 4) : l \in ToSet(VK.lookups)}, 3)
Chunk == VDegree - 2
NPerm == Len(VK.perm)
NSets == (NPerm + Chunk - 1) \div Chunk
NL == Len(VK.lookups)
BF == BlindingFactors(Prog)
NN == N(Prog)
R(r) == (r + 4 * NN) % NN

\* rotations at which each polynomial is opened
RotsOf(qs, c) == {R(qs[i][3]) : i \in {i \in DOMAIN qs : qs[i][2] = c}}
ColSets(qs) == {RotsOf(qs, qs[i][2]) : i \in DOMAIN qs}
PointSets ==
    ColSets(VK.iq) \cup ColSets(VK.aq) \cup ColSets(VK.fq)
    \cup {{0}}                                                     \* quotient, random polynomial
    \cup (IF NSets > 0 THEN {{0, 1}} ELSE {})                       \* last permutation product
    \cup (IF NSets > 1 THEN {{0, 1, R(-(BF + 1))}} ELSE {})         \* the others
    \cup (IF NL > 0 THEN {{0, 1}, {0, R(-1)}} ELSE {})              \* lookup product, permuted input

\* 32-byte words per circuit, and once per proof
PerCircuit == VK.nadv + Len(VK.iq) + Len(VK.aq) + 3 * NL + 5 * NL + NSets + (IF NSets = 0 THEN 0 ELSE 3 * NSets - 1)
Once == Len(VK.fq) + NPerm
        + 1 + (CsDegree(Prog) - 1) + 1                \* random polynomial, quotient pieces, its evaluation
        + 1 + Cardinality(PointSets)                  \* f, its evaluations
        + 1 + 2 * Prog.k + 2
Size(nc) == 32 * (nc * PerCircuit + Once)

Check ==
    LET bad == {i \in DOMAIN Case.sets : Case.real[i].len # Size(Len(Case.sets[i]))}
        badr == {i \in DOMAIN Case.sets : Case.real[i].ver # "ok" \/ Case.real[i].read # Case.real[i].len}
        badp == {i \in DOMAIN Case.sets : Case.predicted[i] # Size(Len(Case.sets[i]))}
    IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN
            "a proof of " \o ToString(Len(Case.sets[i])) \o " circuits has " \o ToString(Case.real[i].len) \o " bytes, specified " \o ToString(Size(Len(Case.sets[i])))
       ELSE IF badr # {} THEN LET i == CHOOSE i \in badr : TRUE IN "the verifier ends with " \o Case.real[i].ver \o " after " \o ToString(Case.real[i].read) \o " bytes"
       ELSE IF badp # {} THEN LET i == CHOOSE i \in badp : TRUE IN
            "predicted " \o ToString(Case.predicted[i]) \o " bytes for " \o ToString(Len(Case.sets[i])) \o " circuits, a proof has " \o ToString(Size(Len(Case.sets[i])))
       ELSE IF Case.marginal # 32 * PerCircuit THEN "predicted marginal size " \o ToString(Case.marginal) \o ", specified " \o ToString(32 * PerCircuit)
       ELSE "ok"
Init == cid \in DOMAIN Cases
Next == /\ cid' = cid /\ UNCHANGED cid
        /\ LET w == Check IN (w # "ok" => Reject(Case.id, "0: " \o w)) /\ Done(Case.id)
=============================================================================
