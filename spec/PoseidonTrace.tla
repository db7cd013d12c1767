---------------------------- MODULE PoseidonTrace ----------------------------
(* Recorded parameters against the Grain generator (one field element per     *)
(* step), then recorded hashes and permutations against Poseidon's definition.*)
EXTENDS Poseidon, Report, Json, TLC, FiniteSets
Cases == JsonDeserialize("cases.json")
VARIABLES cid, lfsr, n, st, vals, sel
vars == <<cid, lfsr, n, st, vals, sel>>
C == Cases[cid]
T == C.t
Q == [t |-> C.t, rate |-> C.rate, rf |-> C.rf, rp |-> C.rp, rc |-> C.rc, mds |-> C.mds, p |-> C.p]
Init ==
  /\ cid \in 1..Len(Cases) /\ n = 0 /\ vals = <<>> /\ sel = Cases[cid].m
  /\ lfsr = Grain(Cases[cid].nbits, Cases[cid].t, Cases[cid].rf, Cases[cid].rp)
  /\ st = "rc"
Stop(why) == /\ IF why = "" THEN Done(C.id) ELSE Reject(C.id, why) 
             /\ st' = "end" /\ UNCHANGED <<cid, lfsr, n, vals, sel>>
Rc ==
  /\ st = "rc"
  /\ IF n = T * (C.rf + C.rp) THEN st' = "mds" /\ UNCHANGED <<cid, lfsr, n, vals, sel>>
     ELSE LET x == NextElement(lfsr, C.nbits, C.p) IN
          IF C.consts /\ C.rc[(n \div T) + 1][(n % T) + 1] # x[2] THEN Stop("0: round constant " \o ToString(n))
          ELSE lfsr' = x[1] /\ n' = n + 1 /\ UNCHANGED <<cid, vals, sel, st>>
Xs == SubSeq(vals, 1, T)
Ys == SubSeq(vals, T + 1, 2 * T)
Zero == \E i, j \in 1..T : AddB(Xs[i], Ys[j], C.p) = "0"
MdsOk ==
  /\ \A i, j \in 1..T : C.mds[i][j] = InvB(AddB(Xs[i], Ys[j], C.p), C.p)
InvOk == \A i, j \in 1..T : DotB([k \in 1..T |-> C.mds[i][k]], [k \in 1..T |-> C.inv[k][j]], C.p) = (IF i = j THEN "1" ELSE "0")
Mds ==
  /\ st = "mds"
  /\ IF Len(vals) < 2 * T
     THEN LET x == NextReduced(lfsr, C.nbits, C.p) IN lfsr' = x[1] /\ vals' = Append(vals, x[2]) /\ UNCHANGED <<cid, n, sel, st>>
     ELSE IF Cardinality({vals[i] : i \in 1..(2 * T)}) < 2 * T THEN vals' = <<>> /\ UNCHANGED <<cid, lfsr, n, sel, st>>
     ELSE IF sel > 0 THEN sel' = sel - 1 /\ vals' = <<>> /\ UNCHANGED <<cid, lfsr, n, st>>
     ELSE IF Zero THEN Stop(IF C.consts THEN "0: a matrix without inverse entries" ELSE "")
     ELSE IF ~ C.consts THEN Stop("0: no parameters")
     ELSE IF ~ MdsOk THEN Stop("0: matrix")
     ELSE IF ~ InvOk THEN Stop("0: inverse matrix")
     ELSE st' = "ops" /\ n' = 1 /\ UNCHANGED <<cid, lfsr, vals, sel>>
Ops ==
  /\ st = "ops"
  /\ IF n > Len(C.ops) THEN Stop("")
     ELSE LET o == C.ops[n]
              v == [i \in 1..Len(o.v) |-> Big(o.v[i])]
              w == IF o.op = "hash" THEN <<HashC(v, Q)>> ELSE Permute(v, Q)
          IN IF C.out[n] # w THEN Stop(ToString(n) \o ": " \o ToString(o) \o " gives " \o ToString(C.out[n]))
             ELSE n' = n + 1 /\ UNCHANGED <<cid, lfsr, vals, sel, st>>
Next == Rc \/ Mds \/ Ops
=============================================================================
