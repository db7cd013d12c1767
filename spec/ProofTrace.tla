----------------------------- MODULE ProofTrace -----------------------------
(* The PLONK verifier as a state machine over transcript events, replayed on   *)
(* transcripts recorded from the real prover and verifier.                     *)
(*                                                                             *)
(* An event is <<kind, value>>: "cs"/"cp" absorb a scalar/point both sides     *)
(* know, "s"/"p" a scalar/point sent by the prover, "sq" a challenge.  Points  *)
(* are discrete logs (transparent curve).  One step of this machine is one     *)
(* phase of the protocol; every phase fixes which events come next, so an      *)
(* event missing, added or moved across a challenge is not a behaviour.  The   *)
(* last phase evaluates the verifier's equation from the values seen.          *)
EXTENDS Plonkish, Opening, Json, Report

Cases == JsonDeserialize("cases.json")
VARIABLES cid, prf, ph, pos, s, bad
vars == <<cid, prf, ph, pos, s, bad>>

Case == Cases[cid]
Prog == Case.prog
VK == Case.vk
Prf == Case.proofs[prf]
Ev == Prf.vev
NP == Len(Prf.vs)

---------------------------------------------------------------------------
(* what the constraint system fixes                                           *)
VDegree == MaxOf({3, Prog.mindeg} \cup {Degree(VK.gates[i]) : i \in DOMAIN VK.gates}
                 \cup {MaxOf({4, 2 + MaxOf({Degree(l.i[j]) : j \in DOMAIN l.i} \cup {1}, 1) + MaxOf({Degree(l.t[j]) : j \in DOMAIN l.t} \cup {1}, 1)}, 4) : l \in ToSet(VK.lookups)}, 3)
Chunk == VDegree - 2
NPerm == Len(VK.perm)
NSets == (NPerm + Chunk - 1) \div Chunk
NL == Len(VK.lookups)
QuotPieces == CsDegree(Prog) - 1
BF == BlindingFactors(Prog)
NN == N(Prog)
Om == PowM(31, 15 * 2 ^ (27 - Prog.k), P)
OmPow(r) == PowM(Om, (r + 4 * NN) % NN, P)

Rep(k, n) == [i \in 1..n |-> k]
RECURSIVE Flat(_, _)
Flat(f, n) == IF n = 0 THEN <<>> ELSE Flat(f, n - 1) \o f
\* kinds of the events of each phase
PermEvals == LET f[i \in 0..NSets] == IF i = 0 THEN <<>> ELSE f[i - 1] \o Rep("s", IF i = NSets THEN 2 ELSE 3) IN f[NSets]
Kinds2(p) ==
    CASE p = "advice" -> <<"cs">> \o Rep("cp", NP * VK.ninst) \o Rep("p", NP * VK.nadv) \o <<"sq">>
      [] p = "lookups" -> Rep("p", 2 * NP * NL) \o <<"sq", "sq">>
      [] p = "products" -> Rep("p", NP * NSets) \o Rep("p", NP * NL) \o <<"p", "sq">>
      [] p = "quotient" -> Rep("p", QuotPieces) \o <<"sq">>
      [] p = "evals" -> Rep("s", NP * Len(VK.iq)) \o Rep("s", NP * Len(VK.aq)) \o Rep("s", Len(VK.fq)) \o <<"s">>
                        \o Rep("s", NPerm) \o Flat(PermEvals, NP) \o Rep("s", 5 * NP * NL)
      [] p = "multiopen" -> <<"sq", "sq", "p", "sq">> \o Rep("s", s.nsets) \o <<"sq">>
      [] OTHER -> <<"p", "sq", "sq">> \o Flat(<<"p", "p", "sq">>, Prog.k) \o <<"s", "s">>
Phases == <<"advice", "lookups", "products", "quotient", "evals", "multiopen", "ipa", "verdict">>

KindsMatch(p) ==
    LET k == Kinds2(p) IN pos + Len(k) - 1 <= Len(Ev) /\ \A i \in DOMAIN k : Ev[pos + i - 1][1] = k[i]
\* the i-th (from 0) value of the phase
V(i) == Ev[pos + i][2]
Vals(from, n) == [i \in 1..n |-> V(from + i - 1)]
Mat(from, rows, cols) == TLCEval([r \in 1..rows |-> TLCEval([c \in 1..cols |-> V(from + (r - 1) * cols + c - 1)])])

InstCommit(col) == AddM(DotM([r \in 1..NN |-> IF r <= Len(col) THEN col[r] ELSE 0], Case.params.gl, P), Case.params.w, P)

---------------------------------------------------------------------------
(* evaluating the constraint system at x                                      *)
QIdx(qs, q) == CHOOSE i \in DOMAIN qs : qs[i] = q
RECURSIVE EvX(_, _, _)
EvX(e, t, i) ==
    CASE e[1] = "c" -> e[2] % P
      [] e[1] = "f" -> t.fixed[QIdx(VK.fq, <<"f", e[2], 0>>)]
      [] e[1] = "a" -> t.adv[i][QIdx(VK.aq, e)]
      [] e[1] = "i" -> t.inst[i][QIdx(VK.iq, e)]
      [] e[1] = "-" -> Neg(EvX(e[2], t, i))
      [] e[1] = "+" -> Add(EvX(e[2], t, i), EvX(e[3], t, i))
      [] e[1] = "*" -> Mul(EvX(e[2], t, i), EvX(e[3], t, i))
      [] OTHER -> Mul(EvX(e[2], t, i), e[3] % P)

ColAt(t, i, c) == CASE c[1] = "a" -> t.adv[i][QIdx(VK.aq, <<"a", c[2], 0>>)]
                    [] c[1] = "f" -> t.fixed[QIdx(VK.fq, <<"f", c[2], 0>>)]
                    [] OTHER -> t.inst[i][QIdx(VK.iq, <<"i", c[2], 0>>)]
Chunked(k) == [j \in 1..(MinOf({Chunk, NPerm - (k - 1) * Chunk}, 0)) |-> (k - 1) * Chunk + j]

\* all constraint values of circuit i at x, in protocol order
Constraints(t, i) ==
    LET xn == Pow(t.x, NN)
        lag(r) == Mul(Mul(Sub(xn, 1), OmPow(r)), Inv(Mul(NN, Sub(t.x, OmPow(r)))))
        l0 == TLCEval(lag(0))
        ll == TLCEval(lag(-(BF + 1)))
        act == TLCEval(Sub(1, Add(ll, Sum([j \in 1..BF |-> lag(-j)]))))
        z(k) == t.perm[i][k]     \* <<z, z_next, z_last>>
        delta == PowM(31, 2 ^ 27, P)
        prodset(k) ==
            LET js == Chunked(k)
                left == Mul(z(k)[2], Prod([m \in DOMAIN js |-> Add(Add(ColAt(t, i, VK.perm[js[m]]), Mul(t.beta, t.sigma[js[m]])), t.gamma)]))
                right == Mul(z(k)[1], Prod([m \in DOMAIN js |-> Add(Add(ColAt(t, i, VK.perm[js[m]]), Mul(Mul(t.beta, t.x), Pow(delta, js[m] - 1))), t.gamma)]))
            IN Mul(Sub(left, right), act)
        perm == IF NSets = 0 THEN <<>>
                ELSE <<Mul(l0, Sub(1, z(1)[1]))>>
                     \o <<Mul(ll, Sub(Mul(z(NSets)[1], z(NSets)[1]), z(NSets)[1]))>>
                     \o [k \in 1..(NSets - 1) |-> Mul(l0, Sub(z(k + 1)[1], z(k)[3]))]
                     \o [k \in 1..NSets |-> prodset(k)]
        comp(es) == Fold([j \in DOMAIN es |-> EvX(es[j], t, i)], t.theta)
        look(l) == LET e == t.look[i][l]   \* z, z_next, a, a_inv, s
                       c == VK.lookups[l]
                   IN <<Mul(l0, Sub(1, e[1])),
                        Mul(ll, Sub(Mul(e[1], e[1]), e[1])),
                        Mul(Sub(Mul(Mul(e[2], Add(e[3], t.beta)), Add(e[5], t.gamma)),
                                Mul(Mul(e[1], Add(comp(c.i), t.beta)), Add(comp(c.t), t.gamma))), act),
                        Mul(l0, Sub(e[3], e[5])),
                        Mul(Mul(Sub(e[3], e[5]), Sub(e[3], e[4])), act)>>
    IN [j \in DOMAIN VK.gates |-> EvX(VK.gates[j], t, i)] \o perm \o FlattenSeq([l \in 1..NL |-> look(l)])

ExpectedH(t) == Mul(Fold(FlattenSeq([i \in 1..NP |-> Constraints(t, i)]), t.y), Inv(Sub(Pow(t.x, NN), 1)))

\* everything opened, in order
Q(l, c, pt, v) == [l |-> l, c |-> c, pt |-> pt, v |-> v]
Rot(t, r) == Mul(t.x, OmPow(r))
Openings(t) ==
    LET xn == Pow(t.x, NN)
        one(i) ==
            [j \in DOMAIN VK.iq |-> Q(<<"inst", i, VK.iq[j][2]>>, t.instc[i][VK.iq[j][2] + 1], Rot(t, VK.iq[j][3]), t.inst[i][j])]
            \o [j \in DOMAIN VK.aq |-> Q(<<"adv", i, VK.aq[j][2]>>, t.advc[i][VK.aq[j][2] + 1], Rot(t, VK.aq[j][3]), t.adv[i][j])]
            \o FlattenSeq([k \in 1..NSets |-> <<Q(<<"perm", i, k>>, t.permc[i][k], t.x, t.perm[i][k][1]), Q(<<"perm", i, k>>, t.permc[i][k], Rot(t, 1), t.perm[i][k][2])>>])
            \o [k \in 1..(IF NSets = 0 THEN 0 ELSE NSets - 1) |-> LET b == NSets - k IN Q(<<"perm", i, b>>, t.permc[i][b], Rot(t, -(BF + 1)), t.perm[i][b][3])]
            \o FlattenSeq([l \in 1..NL |-> LET e == t.look[i][l] IN
                 <<Q(<<"lz", i, l>>, t.lookz[i][l], t.x, e[1]), Q(<<"la", i, l>>, t.lookc[i][2 * l - 1], t.x, e[3]), Q(<<"ls", i, l>>, t.lookc[i][2 * l], t.x, e[5]),
                   Q(<<"la", i, l>>, t.lookc[i][2 * l - 1], Rot(t, -1), e[4]), Q(<<"lz", i, l>>, t.lookz[i][l], Rot(t, 1), e[2])>>])
    IN FlattenSeq([i \in 1..NP |-> one(i)])
       \o [j \in DOMAIN VK.fq |-> Q(<<"fixed", 0, VK.fq[j][2]>>, VK.fixed[VK.fq[j][2] + 1], Rot(t, VK.fq[j][3]), t.fixed[j])]
       \o [j \in 1..NPerm |-> Q(<<"sigma", 0, j>>, VK.sigma[j], t.x, t.sigma[j])]
       \o <<Q(<<"h", 0, 0>>, Fold(Reverse(t.h), xn), t.x, t.hx), Q(<<"rand", 0, 0>>, t.rand, t.x, t.randx)>>

---------------------------------------------------------------------------
Phase == Phases[ph]
Fail(w) == /\ bad' = w
           /\ Reject(Case.id, ToString(prf - 1) \o ": " \o w)
           /\ UNCHANGED <<s, pos>>
Advance(new) == s' = new /\ pos' = pos + Len(Kinds2(Phase)) /\ bad' = ""

Advice ==
    LET inst == [i \in 1..NP |-> [c \in 1..VK.ninst |-> InstCommit(Prf.inst[i][c])]]
        new == [instc |-> Mat(1, NP, VK.ninst), advc |-> Mat(1 + NP * VK.ninst, NP, VK.nadv),
                repr |-> V(0), theta |-> V(1 + NP * VK.ninst + NP * VK.nadv)]
    IN IF \E i \in 1..NP : \E c \in 1..VK.ninst : new.instc[i][c] # inst[i][c] THEN Fail("public inputs are not bound by their commitment")
       ELSE IF \E i \in DOMAIN Case.proofs : Case.proofs[i].vev # <<>> /\ V(0) # Case.proofs[i].vev[1][2] THEN Fail("verifying key digest changes between proofs")
       ELSE Advance(new)
Lookups == Advance(s @@ [lookc |-> Mat(0, NP, 2 * NL), beta |-> V(2 * NP * NL), gamma |-> V(2 * NP * NL + 1)])
Products == Advance(s @@ [permc |-> Mat(0, NP, NSets), lookz |-> Mat(NP * NSets, NP, NL), rand |-> V(NP * (NSets + NL)), y |-> V(NP * (NSets + NL) + 1)])
Quotient == Advance(s @@ [h |-> Vals(0, QuotPieces), x |-> V(QuotPieces)])
Evals ==
    LET a == NP * Len(VK.iq)
        b == a + NP * Len(VK.aq)
        c == b + Len(VK.fq)
        d == c + 1
        e == d + NPerm
        pl == IF NSets = 0 THEN 0 ELSE 3 * NSets - 1
        f == e + NP * pl
        t == s @@ [inst |-> Mat(0, NP, Len(VK.iq)), adv |-> Mat(a, NP, Len(VK.aq)), fixed |-> Vals(b, Len(VK.fq)), randx |-> V(c), sigma |-> Vals(d, NPerm),
                   perm |-> TLCEval([i \in 1..NP |-> TLCEval([k \in 1..NSets |-> LET o == e + (i - 1) * pl + 3 * (k - 1)
                                IN IF k = NSets THEN <<V(o), V(o + 1)>> ELSE <<V(o), V(o + 1), V(o + 2)>>])]),
                   look |-> TLCEval([i \in 1..NP |-> TLCEval([l \in 1..NL |-> Vals(f + 5 * ((i - 1) * NL + l - 1), 5)])])]
        t2 == TLCEval(t @@ [hx |-> TLCEval(ExpectedH(t))])
        qs == TLCEval(Openings(t2))
    IN Advance(t2 @@ [qs |-> qs, nsets |-> NumSets(qs)])
Multiopen ==
    LET o == [x1 |-> V(0), x2 |-> V(1), qp |-> V(2), x3 |-> V(3), u |-> Vals(4, s.nsets), x4 |-> V(4 + s.nsets)]
    IN Advance([claim |-> TLCEval(MultiClaim(s.qs, o)), x3 |-> o.x3, nsets |-> s.nsets])
Ipa ==
    LET a == [S |-> V(0), xi |-> V(1), z |-> V(2), lr |-> [j \in 1..Prog.k |-> <<V(3 * j), V(3 * j + 1), V(3 * j + 2)>>],
              c |-> V(3 + 3 * Prog.k), f |-> V(4 + 3 * Prog.k)]
    IN Advance([residue |-> IpaResidue(Case.params, s.claim.P, s.x3, s.claim.v, a)])

---------------------------------------------------------------------------
(* verdicts: the equation, the meaning of the circuit, and tampering          *)
RunOf(v) == Case.rec[v + 1]
G(v) == GridOf(Prog, RunOf(v).ev, Prog.inst[v + 1])
LookPoison(g) == \E l \in DOMAIN Prog.lookups : \E r \in 0..(Usable(Prog) - 1) : POISON \in ToSet(Tuple(Prog, g, Prog.lookups[l], r))
\* "sat", "unsat", or "?" when it hinges on the random contents of blinding rows
Meaning(v) ==
    LET g == G(v)
    IN IF GateViol(Prog, g) # {} \/ CopyViol(g, Copies(RunOf(v).ev)) # {} THEN "unsat"
       ELSE IF LookPoison(g) THEN "?"
       ELSE IF LookupViol(Prog, g) # {} THEN "unsat"
       ELSE IF GatePoison(Prog, g) # {} THEN "?" ELSE "sat"
Want == LET ms == {Meaning(v) : v \in ToSet(Prf.vs)} IN IF "unsat" \in ms THEN "unsat" ELSE IF "?" \in ms THEN "?" ELSE "sat"

SameInst(alt) == LET col == Prf.inst[alt[1] + 1][alt[2] + 1]
                 IN (IF alt[3] < Len(col) THEN col[alt[3] + 1] ELSE 0) = alt[4] % P
Verdict ==
    LET w == Want
        acc == Prf.vres = "ok"
        badalt == {i \in DOMAIN Prf.alt : (Prf.altres[i] = "ok") # (acc /\ SameInst(Prf.alt[i]))}
        badtam == {i \in DOMAIN Prf.tam : Prf.tam[i][3] = "ok"}
    IN IF pos # Len(Ev) + 1 THEN Fail("verifier did " \o ToString(Len(Ev) + 1 - pos) \o " more transcript operations than the protocol")
       ELSE IF Prf.pev # Ev THEN Fail("prover and verifier transcripts differ")
       ELSE IF Prf.vpos # Prf.len THEN Fail("proof not read to its end")
       ELSE IF acc # (s.residue = 0) THEN Fail("verifier says " \o Prf.vres \o " but its equation is off by " \o ToString(s.residue))
       ELSE IF w = "sat" /\ ~acc THEN Fail("proof of a satisfied circuit rejected: " \o Prf.vres)
       ELSE IF w = "unsat" /\ acc THEN Fail("proof of an unsatisfied circuit accepted")
       ELSE IF badalt # {} THEN Fail("with public input changed " \o ToString(Prf.alt[CHOOSE i \in badalt : TRUE]) \o " verifier says " \o Prf.altres[CHOOSE i \in badalt : TRUE])
       ELSE IF badtam # {} THEN Fail("accepted with word/delta changed: " \o ToString(Prf.tam[CHOOSE i \in badtam : TRUE]))
       ELSE UNCHANGED <<s, pos>> /\ bad' = ""

Init == /\ cid \in DOMAIN Cases /\ prf = 1 /\ ph = 1 /\ pos = 1 /\ s = <<>> /\ bad = ""

\* create_proof refused: allowed only for an unsatisfied circuit
NoProof == /\ ph' = Len(Phases)
           /\ IF Want = "sat" \/ Prf.res # "ConstraintSystemFailure" THEN Fail("create_proof on a " \o Want \o " witness ended with " \o Prf.res)
              ELSE UNCHANGED <<s, pos>> /\ bad' = ""
Step ==
    /\ bad = "" /\ ph < Len(Phases)
    /\ UNCHANGED <<cid, prf>>
    /\ IF Prf.res # "ok" THEN NoProof
       ELSE /\ ph' = ph + 1
            /\ IF ~KindsMatch(Phase) THEN Fail("events of phase " \o Phase \o " out of order")
               ELSE CASE Phase = "advice" -> Advice
                      [] Phase = "lookups" -> Lookups
                      [] Phase = "products" -> Products
                      [] Phase = "quotient" -> Quotient
                      [] Phase = "evals" -> Evals
                      [] Phase = "multiopen" -> Multiopen
                      [] OTHER -> Ipa
NextProof ==
    /\ bad = "" /\ ph = Len(Phases)
    /\ IF Prf.res = "ok" THEN Verdict ELSE UNCHANGED <<s, pos>> /\ bad' = ""
    /\ ph' = Len(Phases) + 1
    /\ UNCHANGED <<cid, prf>>
Go ==
    /\ bad = "" /\ ph = Len(Phases) + 1
    /\ IF prf = Len(Case.proofs)
       THEN /\ ph' = 99 /\ Done(Case.id) /\ UNCHANGED <<cid, prf, pos, s, bad>>
       ELSE /\ prf' = prf + 1 /\ ph' = 1 /\ pos' = 1 /\ s' = <<>> /\ bad' = "" /\ cid' = cid
Next == Step \/ NextProof \/ Go
=============================================================================
