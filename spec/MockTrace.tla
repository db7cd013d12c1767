----------------------------- MODULE MockTrace -----------------------------
(* C11: validate what MockProver reported for recorded circuits against the  *)
(* meaning of the circuit.  One behaviour per case; one step per witness      *)
(* variant.  The grid is the one the recording backend saw (C01 checks that   *)
(* recording against the program).                                            *)
EXTENDS Plonkish, Json, TLC, Report

Cases == JsonDeserialize("cases.json")
VARIABLES cid, v

Rows(p) == 0..(N(p) - 1)
EvRows(e) == CASE e.e = "copy" -> {e.a[3], e.b[3]}
               [] e.e \in {"enter", "exit"} -> {}
               [] OTHER -> {e.r}
Fits(p, ev) == \A i \in DOMAIN ev : \A r \in EvRows(ev[i]) : r < Usable(p)

\* the regions as the backend sees them: <<first event, last event>> of each enter..exit bracket
RECURSIVE Brackets(_, _, _)
Brackets(ev, i, acc) ==
    IF i > Len(ev) THEN acc
    ELSE IF ev[i].e = "enter" THEN
        LET j == CHOOSE j \in i..Len(ev) : ev[j].e = "exit" /\ \A m \in i..(j - 1) : ev[m].e # "exit"
        IN Brackets(ev, j + 1, Append(acc, <<i, j>>))
    ELSE Brackets(ev, i + 1, acc)
Region(ev, b) ==
    LET evs == {ev[i] : i \in b[1]..b[2]}
        cells == {<<"a", e.c, e.r>> : e \in {e \in evs : e.e = "adv"}} \cup {<<"f", e.c, e.r>> : e \in {e \in evs : e.e = "fix"}}
        rows == {c[3] : c \in cells}
    IN [cells |-> cells,
        cols |-> {<<c[1], c[2]>> : c \in cells},
        lo |-> MinOf(rows, -1), hi |-> MaxOf(rows, -1),
        sel |-> {<<e.c, e.r>> : e \in {e \in evs : e.e = "sel"}}]
Regions(ev) == LET bs == Brackets(ev, 1, <<>>) IN [i \in DOMAIN bs |-> Region(ev, bs[i])]

\* where a failure on row r involving columns cs is reported
Locate(rs, r, cs) ==
    LET hits == {i \in DOMAIN rs : rs[i].lo # -1 /\ rs[i].lo <= r /\ r <= rs[i].hi /\ rs[i].cols \cap cs # {}}
    IN IF hits = {} THEN <<"out", r>>
       ELSE LET i == MinOf(hits, 0) IN <<"in", i - 1, r - rs[i].lo>>
Cols(e) == {<<q[1], q[2]>> : q \in {q \in Queries(e) : q[1] # "s"}}

Unassigned(p, inst, rs) ==
    UNION {UNION {UNION {
        LET g == p.gates[gi]
            qs == {q \in GateQueries(g) : q[1] # "s"}
            bad == {q \in qs : LET row == (sr[2] + q[3] + N(p)) % N(p)
                               IN IF q[1] = "i" THEN row >= Len(At(inst, q[2]))
                                  ELSE <<q[1], q[2], row>> \notin rs[ri].cells}
        IN IF \E q \in GateQueries(g) : q[1] = "s" /\ q[2] = sr[1]
           THEN {LET row == (sr[2] + q[3] + N(p)) % N(p)
                 IN IF q[1] = "i" THEN <<"icna", gi - 1, ri - 1, sr[2], q[2], row>>
                    ELSE <<"cna", gi - 1, ri - 1, sr[2], q[1], q[2],
                           row - (IF rs[ri].lo = -1 THEN sr[2] ELSE rs[ri].lo)>> : q \in bad}
           ELSE {}
        : sr \in rs[ri].sel} : gi \in DOMAIN p.gates} : ri \in DOMAIN rs}

Expected(p, ev, inst) ==
    LET g == GridOf(p, ev, inst)
        rs == Regions(ev)
        cls == Classes(Copies(ev))
    IN Unassigned(p, inst, rs)
       \cup {<<"gate", x[1], x[2], Locate(rs, x[3], Cols(GatePolys(At(p.gates, x[1]))[x[2] + 1]))>> : x \in GateViol(p, g)}
       \cup {<<"poison", x[1], x[2]>> : x \in GatePoison(p, g)}
       \cup {<<"lookup", x[1], Locate(rs, x[2], UNION {Cols(At(p.lookups, x[1])[j][1]) : j \in DOMAIN At(p.lookups, x[1])})>>
               : x \in LookupViol(p, g)}

\* A cell whose class holds unequal values.  Which cells of a violated class are blamed depends
\* on the cycle order (a free choice), so: blamed cells lie in violated classes, and every
\* violated class has a blamed cell.
PermOk(p, ev, inst, blamed) ==
    LET g == GridOf(p, ev, inst)
        rs == Regions(ev)
        cls == Classes(Copies(ev))
        badcls == {c \in cls : Cardinality({CellVal(g, x) : x \in c}) > 1}
        loc(x) == <<"perm", x[1], x[2], Locate(rs, x[3], {<<x[1], x[2]>>})>>
    IN /\ \A b \in blamed : \E c \in badcls : \E x \in c : loc(x) = b
       /\ \A c \in badcls : \E x \in c : loc(x) \in blamed

\* values printed with a failed constraint are the values of the cells it queries
ValuesOk(p, ev, inst, vals) ==
    LET g == GridOf(p, ev, inst)
    IN \A i \in DOMAIN vals :
        LET w == vals[i]  \* <<gate, poly, row, kind, column, rot, value>>
            row == (w[3] + w[6] + N(p)) % N(p)
        IN CellVal(g, <<w[4], w[5], row>>) = w[7]

Check(c, i) ==
    LET p == c.prog
        m == c.mock[i]
        run == c.rec[i]
        ev == run.ev
        inst == p.inst[i]
        fits == Fits(p, ev) /\ \A j \in DOMAIN inst : Len(inst[j]) <= Usable(p)
        got == {m.fail[j] : j \in DOMAIN m.fail}
        perm == {x \in got : x[1] = "perm"}
        want == Expected(p, ev, inst)
    IN IF run.res # "ok" \/ ~fits \/ N(p) < MinimumRows(p)
       THEN IF m.res = "ok" THEN "accepted a circuit that does not fit" ELSE "ok"
       ELSE IF m.res # "ok" THEN "ended with " \o m.res
       ELSE IF got \ perm # want
            THEN IF want \ got = {} THEN "reported " \o ToString(CHOOSE x \in (got \ perm) \ want : TRUE) \o " which holds"
                 ELSE "did not report " \o ToString(CHOOSE x \in want \ got : TRUE)
       ELSE IF ~PermOk(p, ev, inst, perm) THEN "wrong copy-constraint failures " \o ToString(perm)
       ELSE IF ~ValuesOk(p, ev, inst, m.vals) THEN "wrong cell values in a failure"
       ELSE "ok"

Init == cid \in DOMAIN Cases /\ v = 1
Next ==
    /\ v <= Len(Cases[cid].mock)
    /\ v' = v + 1
    /\ cid' = cid
    /\ LET w == Check(Cases[cid], v)
       IN /\ (w # "ok" => Reject(Cases[cid].id, ToString(v - 1) \o ": " \o w))
          /\ (v = Len(Cases[cid].mock) => Done(Cases[cid].id))
=============================================================================
