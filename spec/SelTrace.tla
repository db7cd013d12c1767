------------------------------ MODULE SelTrace ------------------------------
(* C03: the compiled constraint system (read from the verifying key) against  *)
(* the written one.                                                           *)
(*                                                                            *)
(* Selector s_i is replaced by an expression in one column that key           *)
(* generation adds.  The contents of that column are not printed, only        *)
(* committed to; they are recovered from the compiled probe gates             *)
(* (written: s_i * a_0) by requiring the probe of s_i to be non-zero exactly  *)
(* on the rows where s_i was enabled, and the commitment is then checked.     *)
(* With the columns known, every compiled polynomial is compared with the     *)
(* written one on every row at pseudo-random cell values.                     *)
EXTENDS Plonkish, Json, TLC, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, pc
Case == Cases[cid]
Prog == Case.prog
VK == Case.vk
Rows == 0..(N(Prog) - 1)
Active(i) == {r \in Rows : \E e \in ToSet(Case.ev) : e.e = "sel" /\ e.c = i /\ e.r = r}

Written == FlattenSeq([g \in DOMAIN Prog.gates |-> GatePolys(Prog.gates[g])])
Compiled == VK.gates
NewCols == NFix(Prog)..(VK.nfix - 1)

\* pseudo-random value of a cell in world t
Cell(t, k, c, r) == PowM(31, 7919 * t + 104729 * c + 15485 * r + (CASE k = "a" -> 1 [] k = "f" -> 2 [] OTHER -> 3), P)

\* evaluate with selectors from sel[i][r], new columns from new[c], everything else from world t
RECURSIVE EvalW(_, _, _, _, _)
EvalW(e, r, t, sel, new) ==
    CASE e[1] = "c" -> e[2] % P
      [] e[1] = "s" -> IF r \in sel[e[2]] THEN 1 ELSE 0
      [] e[1] = "f" -> IF e[2] \in NewCols THEN new[e[2]] ELSE Cell(t, "f", e[2], r)
      [] e[1] \in {"a", "i"} -> Cell(t, e[1], e[2], (r + e[3] + N(Prog)) % N(Prog))
      [] e[1] = "-" -> NegM(EvalW(e[2], r, t, sel, new), P)
      [] e[1] = "+" -> AddM(EvalW(e[2], r, t, sel, new), EvalW(e[3], r, t, sel, new), P)
      [] e[1] = "*" -> MulM(EvalW(e[2], r, t, sel, new), EvalW(e[3], r, t, sel, new), P)
      [] OTHER -> MulM(EvalW(e[2], r, t, sel, new), e[3] % P, P)

\* probes: <<selector, polynomial index>>
NewIn(e) == {q[2] : q \in {q \in Queries(e) : q[1] = "f" /\ q[2] \in NewCols}}
Commit(col) == AddM(DotM([r \in 1..N(Prog) |-> col[r - 1]], Case.params.gl, P), Case.params.w, P)

\* kappa: the factor between the compiled and the written polynomial on a row
SameUpTo(f1, h1, f2, h2, exact) ==
    /\ (f1 = 0) <=> (h1 = 0)
    /\ (f2 = 0) <=> (h2 = 0)
    /\ MulM(f1, h2, P) = MulM(f2, h1, P)
    /\ exact => f1 = h1 /\ f2 = h2

HasSimple(e) == \E q \in Queries(e) : q[1] = "s" /\ Simple(Prog, q[2])
Checked ==
    LET prog == Prog
        comp == Compiled
        writ == TLCEval(Written)
        newc == TLCEval(NewCols)
        probes == ToSet(Case.probes)
        sel == TLCEval([i \in 0..(NSel(prog) - 1) |-> Active(i)])
        on == TLCEval([c \in newc |-> {b \in probes : c \in NewIn(comp[b[2] + 1])}])
        \* probe value if the column holds v, on a row where the selector is / is not enabled
        hit == TLCEval([c \in newc |-> TLCEval([v \in 0..(NSel(prog) + 1) |->
                   TLCEval([b \in on[c] |-> EvalW(comp[b[2] + 1], 0, 1, sel, [x \in newc |-> v])])])])
        unit == Cell(1, "a", 0, 0)
        fits(c, r, v) == \A b \in on[c] : LET en == r \in sel[b[1]] h == hit[c][v][b]
                                         IN IF Simple(prog, b[1]) THEN (h # 0) <=> en ELSE h = (IF en THEN unit ELSE 0)
        cands == TLCEval([c \in newc |-> TLCEval([r \in Rows |-> {v \in 0..(NSel(prog) + 1) : fits(c, r, v)}])])
        content == TLCEval([c \in newc |-> TLCEval([r \in Rows |-> MinOf(cands[c][r], 0)])])
        stuck == {x \in newc \X Rows : on[x[1]] # {} /\ cands[x[1]][x[2]] = {}}
        wrong == {c \in newc : on[c] # {} /\ Commit(content[c]) # At(VK.fixed, c)}
        deg == MaxOf({Degree(comp[i]) : i \in DOMAIN comp} \cup UNION {{2 + 1 + Degree(l.i[j]) : j \in DOMAIN l.i} : l \in ToSet(VK.lookups)}, 0)
        ok(e, h, r, new) == SameUpTo(EvalW(e, r, 1, sel, new), EvalW(h, r, 1, sel, new),
                                     EvalW(e, r, 2, sel, new), EvalW(h, r, 2, sel, new), ~HasSimple(e))
        bad(r) == LET new == TLCEval([c \in newc |-> content[c][r]])
                  IN {<<"gate polynomial", i - 1, r>> : i \in {i \in DOMAIN writ : ~ok(writ[i], comp[i], r, new)}}
                     \cup UNION {{<<"lookup", i - 1, r>> : j \in {j \in DOMAIN prog.lookups[i] :
                                     ~ok(prog.lookups[i][j][1], VK.lookups[i].i[j], r, new) \/ VK.lookups[i].t[j] # <<"f", prog.lookups[i][j][2]>>}}
                                 : i \in DOMAIN prog.lookups}
        allbad == TLCEval(UNION {bad(r) : r \in Rows})
    IN IF Len(comp) # Len(writ) THEN "number of compiled polynomials"
       ELSE IF Len(VK.lookups) # Len(prog.lookups) \/ \E i \in DOMAIN prog.lookups : Len(VK.lookups[i].i) # Len(prog.lookups[i]) THEN "number of lookups"
       ELSE IF \E b \in probes : Cardinality(NewIn(comp[b[2] + 1])) # 1 THEN "a selector became no column or several"
       ELSE IF stuck # {} THEN LET x == CHOOSE x \in stuck : TRUE
            IN "no value of selector column " \o ToString(x[1]) \o " activates exactly the selectors enabled on row " \o ToString(x[2])
               \o " among " \o ToString({b[1] : b \in on[x[1]]})
       ELSE IF wrong # {} THEN "selector column contents do not match the enabled selectors"
       ELSE IF deg > CsDegree(prog) THEN "compiled degree " \o ToString(deg) \o " exceeds " \o ToString(CsDegree(prog))
       ELSE IF allbad = {} \/ Case.probes = <<>> THEN "ok" ELSE "compiled constraint differs: " \o ToString(CHOOSE x \in allbad : TRUE)

\* what is enforced in the end, on violating and honest witnesses
Verdict(v) ==
    LET g == GridOf(Prog, v.ev, v.inst)
        sat == GateViol(Prog, g) = {} /\ GatePoison(Prog, g) = {} /\ LookupViol(Prog, g) = {}
    IN IF sat # v.mock THEN "mock prover " \o (IF v.mock THEN "accepts" ELSE "rejects")
       ELSE IF v.proof # "none" /\ sat # (v.proof = "ok") THEN "real proof ends with " \o v.proof \o " on a witness that " \o (IF sat THEN "satisfies" ELSE "violates") \o " the circuit"
       ELSE "ok"
Init == cid \in DOMAIN Cases /\ pc = 0
Last2 == Len(Case.verdicts)
Next == /\ pc <= Last2 /\ pc' = pc + 1 /\ cid' = cid
        /\ LET w == IF pc = 0 THEN Checked ELSE Verdict(Case.verdicts[pc])
           IN (w # "ok" => Reject(Case.id, ToString(pc) \o ": " \o w)) /\ (pc = Last2 => Done(Case.id))
=============================================================================
