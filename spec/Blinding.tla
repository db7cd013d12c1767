------------------------------ MODULE Blinding ------------------------------
(* What a proof reveals.  With the challenges held fixed every message of a   *)
(* proof is a function of the circuit, its witness and the numbers the prover *)
(* draws.  The recording gives, for every draw, how the messages move when    *)
(* that draw alone is raised by one; a message is a column over the draws.    *)
(*                                                                            *)
(* The messages are read in protocol order (the phases of ProofTrace).  The   *)
(* state keeps the directions in the space of draws that the messages read so *)
(* far have revealed.  Each further message that speaks about the witness has *)
(* to move along a direction that is still fresh: then, whatever the witness, *)
(* all values of the message are equally likely given everything before it.   *)
(* The very last scalar (the synthetic blinding factor of the inner-product   *)
(* argument) is the one exception: the verifier's equation determines it.     *)
(* Moreover every commitment has a blinding factor of its own (a draw that    *)
(* moves that commitment and the last scalar, and nothing else), and the      *)
(* committed polynomials are random enough: a column of the circuit carries   *)
(* at least as many random values as the constraint system asks for, the      *)
(* masking polynomials of the quotient and of the inner-product argument are  *)
(* random in every coefficient.                                               *)
(*                                                                            *)
(* A case without a circuit is an opening on its own (a multi-point opening,  *)
(* then a single one): there the polynomials are fixed, so everything that    *)
(* is hidden is hidden by the opening's own randomness.                       *)
EXTENDS ProofTrace

VARIABLES lab, mi, basis
all == <<vars, lab, mi, basis>>

\* labels of the messages of a phase: "-" no secret, "e" a scalar, "f" the last one, and commitments:
\* "c" any, "w" to a column of the circuit, "r" to the mask of the quotient, "s" to that of the inner product
Mark(k, l) == [i \in DOMAIN k |-> IF k[i] = "p" THEN l ELSE "-"]
ULabels == LET g == Grouping(s.qs) IN [i \in DOMAIN g.sets |-> IF \E m \in ToSet(g.members[i]) : m[1] \notin {"inst", "fixed", "sigma"} THEN "e" ELSE "-"]
IpaLabels(k) == <<"s", "-", "-">> \o Flat(<<"c", "c", "-">>, k) \o <<"e", "f">>
Labels(p) ==
    CASE p \in {"advice", "lookups"} -> Mark(Kinds2(p), "w")
      [] p = "products" -> Rep("w", NP * (NSets + NL)) \o <<"r", "-">>
      [] p = "quotient" -> Mark(Kinds2(p), "c")
      [] p = "evals" -> Rep("-", NP * Len(VK.iq)) \o Rep("e", NP * Len(VK.aq)) \o Rep("-", Len(VK.fq)) \o <<"e">>
                        \o Rep("-", NPerm) \o Rep("e", NP * Len(PermEvals)) \o Rep("e", 5 * NP * NL)
      [] p = "multiopen" -> <<"-", "-", "c", "-">> \o ULabels \o <<"-">>
      [] OTHER -> IpaLabels(Prog.k)

\* an opening on its own
Alone == Case.kind = "open"
AloneKinds == (IF prf = 1 THEN <<"sq", "sq", "p", "sq">> \o Rep("s", Case.nsets) \o <<"sq">> ELSE <<>>)
              \o <<"p", "sq", "sq">> \o Flat(<<"p", "p", "sq">>, Case.k) \o <<"s", "s">>
AloneLabels == (IF prf = 1 THEN <<"-", "-", "c", "-">> \o Rep("-", Case.nsets) \o <<"-">> ELSE <<>>) \o IpaLabels(Case.k)
Rows == IF Alone THEN 2 ^ Case.k ELSE NN

BInit == Init /\ lab = <<>> /\ mi = 0 /\ basis = <<>>

Read ==
    /\ ~Alone /\ bad = "" /\ ph < Len(Phases) /\ mi = 0
    /\ \A l \in {IF Prf.res = "ok" /\ KindsMatch(Phase) THEN Labels(Phase) ELSE <<>>} : lab' = lab \o l
    /\ Step /\ UNCHANGED <<mi, basis>>

Say(w) == bad' = w /\ Reject(Case.id, ToString(prf - 1) \o ": " \o w)
Ready ==
    /\ mi' = 1 /\ UNCHANGED <<cid, prf, ph, pos, s, basis>>
    /\ IF ~Prf.same THEN Say("the same random numbers give different proofs")
       ELSE IF Prf.bad # <<>> THEN Say("draw " \o ToString(Prf.bad[1]) \o " changes the shape of the proof")
       ELSE bad' = ""
BeginAlone ==
    /\ Alone /\ bad = "" /\ mi = 0 /\ Prf.res = "ok"
    /\ lab' = AloneLabels
    /\ IF [i \in DOMAIN Ev |-> Ev[i][1]] # AloneKinds THEN Say("not the messages of an opening") /\ mi' = 1 /\ UNCHANGED <<cid, prf, ph, pos, s, basis>>
       ELSE Ready
Begin ==
    /\ ~Alone /\ bad = "" /\ ph = Len(Phases) /\ mi = 0 /\ Prf.res = "ok"
    /\ UNCHANGED lab
    /\ IF pos # Len(Ev) + 1 THEN Say("the prover sends more than the protocol") /\ mi' = 1 /\ UNCHANGED <<cid, prf, ph, pos, s, basis>>
       ELSE Ready

Col(i) == Prf.cols[i]
RECURSIVE Reduce(_, _)
Reduce(v, b) == IF b = <<>> THEN v ELSE Reduce(SubScaledM(v, v[Head(b).at], Head(b).v, P), Tail(b))
Piv(v) == IF \E j \in DOMAIN v : v[j] # 0 THEN CHOOSE j \in DOMAIN v : v[j] # 0 ELSE 0
\* a draw that moves message i and nothing else but (if the commitment is opened) the last scalar
OwnBlind(i) == \E j \in DOMAIN Prf.supp : i \in ToSet(Prf.supp[j]) /\ ToSet(Prf.supp[j]) \subseteq {i, Len(Ev)}
\* how many draws are seen for the first time in message i
New(i) == Cardinality({j \in DOMAIN Prf.first : Prf.first[j] = i})
Need(l) == CASE l = "w" -> BF + 1 [] l = "r" -> Rows + 1 [] l = "s" -> Rows [] OTHER -> 1
Walk ==
    /\ bad = "" /\ mi \in 1..Len(Ev) /\ Prf.cols # <<>>
    /\ mi' = mi + 1 /\ UNCHANGED <<cid, prf, ph, pos, s, lab>>
    /\ IF lab[mi] \in {"-", "f"} THEN UNCHANGED <<basis, bad>>
       ELSE \A v \in {Reduce(Col(mi), basis)} : \A pv \in {Piv(v)} :
            IF pv = 0 THEN Say("message " \o ToString(mi) \o " is determined by the messages before it") /\ UNCHANGED basis
            ELSE IF lab[mi] # "e" /\ ~OwnBlind(mi) THEN Say("commitment " \o ToString(mi) \o " has no blinding factor of its own") /\ UNCHANGED basis
            ELSE IF lab[mi] # "e" /\ New(mi) < Need(lab[mi]) THEN Say("commitment " \o ToString(mi) \o " is to a polynomial with too few random values: " \o ToString(New(mi))) /\ UNCHANGED basis
            ELSE basis' = Append(basis, [at |-> pv, v |-> ScaleM(v, InvM(v[pv], P), P)]) /\ bad' = ""
Over == bad = "" /\ ((mi > 0 /\ (mi > Len(Ev) \/ Prf.cols = <<>>)) \/ ((Alone \/ ph = Len(Phases)) /\ Prf.res # "ok"))
BNext ==
    \/ Read \/ Begin \/ BeginAlone \/ Walk
    \/ /\ Over
       /\ IF prf = Len(Case.proofs) THEN Done(Case.id) /\ mi' = -1 /\ bad' = "done" /\ UNCHANGED <<cid, prf, ph, pos, s, lab, basis>>
          ELSE prf' = prf + 1 /\ ph' = 1 /\ pos' = 1 /\ s' = <<>> /\ bad' = "" /\ cid' = cid /\ lab' = <<>> /\ mi' = 0 /\ basis' = <<>>
=============================================================================
