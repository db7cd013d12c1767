----------------------------- MODULE TableTrace -----------------------------
(* C10: what the library makes of a sequence of table assignments - the calls  *)
(* each floor planner makes on its backend, the outcome of key generation with *)
(* the fixed commitments, and the mock prover - against the specified outcome. *)
EXTENDS Plonkish, Json, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, pc
Case == Cases[cid]
Prog == Case.prog
Val(v) == IF Len(v) = 1 THEN v[1] % P ELSE MulM(v[1], InvM(v[2], P), P)
TabOps == SelectSeq(Prog.ops, LAMBDA o : o.op = "table")

\* a table column while it is being assigned: row -> value
Rows(m, c) == {k[2] : k \in {k \in DOMAIN m : k[1] = c}}
\* state: [used, done: column -> contents of finished tables, err: set of possible errors]
RECURSIVE Cells(_, _, _, _)
Cells(cs, i, m, st) ==
    IF i > Len(cs) THEN [m |-> m, err |-> {}]
    ELSE LET c == cs[i][1] r == cs[i][2]
         IN IF c \in st.used THEN [m |-> m, err |-> {"TableError:UsedColumn:" \o ToString(c)}]
            ELSE IF r >= st.rows THEN [m |-> m, err |-> {"NotEnoughRowsAvailable"}]
            ELSE IF r = 0 /\ <<c, 0>> \in DOMAIN m THEN [m |-> m, err |-> {"TableError:OverwriteDefault:" \o ToString(c)}]
            ELSE Cells(cs, i + 1, (<<c, r>> :> Val(cs[i][3])) @@ m, st)
Uneven(a, la, b, lb) == "TableError:UnevenColumnLengths:" \o ToString(a) \o "," \o ToString(la) \o "," \o ToString(b) \o "," \o ToString(lb)
Table1(o, st) ==
    LET x == Cells(o.cells, 1, <<>>, st)
        cols == {k[1] : k \in DOMAIN x.m}
        len(c) == Cardinality(Rows(x.m, c))
        gaps == {c \in cols : \E r \in 0..(len(c) - 1) : <<c, r>> \notin DOMAIN x.m}
        dif == {<<a, b>> \in cols \X cols : a < b /\ len(a) # len(b)}
        first == MaxOf({len(c) : c \in cols}, 0)
        err == IF x.err # {} THEN x.err
               ELSE IF gaps # {} THEN {"TableError:ColumnNotAssigned:" \o ToString(c) : c \in gaps}
               ELSE IF dif # {} THEN {Uneven(p[1], len(p[1]), p[2], len(p[2])) : p \in dif}
               ELSE IF cols # {} /\ first >= st.rows THEN {"NotEnoughRowsAvailable"} ELSE {}
    IN [st EXCEPT !.err = err, !.used = @ \cup cols,
        !.done = IF err # {} THEN @ ELSE [c \in DOMAIN @ \cup cols |-> IF c \in cols
                    THEN [r \in 0..(N(Prog) - 1) |-> IF r >= Usable(Prog) THEN 0 ELSE IF r < first THEN x.m[<<c, r>>] ELSE x.m[<<c, 0>>]]
                    ELSE @[c]]]
RECURSIVE Outcome(_, _)
Outcome(i, st) == IF st.err # {} \/ i > Len(TabOps) THEN st ELSE Outcome(i + 1, Table1(TabOps[i], st))
Start(rows) == [used |-> {}, done |-> <<>>, err |-> {}, rows |-> rows]
Unbounded == TLCEval(Outcome(1, Start(1000000)))
Bounded == TLCEval(Outcome(1, Start(Usable(Prog))))

TCols == {c \in 0..(NFix(Prog) - 1) : At(Kinds(Prog, {"f", "t"}), c) = "t"}
Agree(res, st) == IF st.err = {} THEN res = "ok" ELSE res \in st.err
Commit(col) == AddM(DotM([r \in 1..N(Prog) |-> col[r - 1]], Case.params.gl, P), Case.params.w, P)
Zeros == [r \in 0..(N(Prog) - 1) |-> 0]
Content(c) == IF c \in DOMAIN Bounded.done THEN Bounded.done[c] ELSE Zeros

Recorder ==
    LET bad == {i \in DOMAIN Case.rec : ~Agree(Case.rec[i].res, Unbounded)}
        \* contents as the calls of the planner leave them
        off(i) == LET g == ApplyFrom(Prog, EmptyGrid(Prog), Case.rec[i].ev, 1)
                  IN {c \in TCols : ~(\A r \in 0..(N(Prog) - 1) : g.fix[c][r] = Content(c)[r])}
    IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN "floor planner ends with " \o Case.rec[i].res \o ", specified " \o ToString(Unbounded.err)
       ELSE IF Bounded.err = {} /\ \E i \in DOMAIN Case.rec : off(i) # {} THEN
            "table column " \o ToString(CHOOSE c \in UNION {off(i) : i \in DOMAIN Case.rec} : TRUE) \o " is not what was assigned, then the value of row 0"
       ELSE "ok"
Keys ==
    IF ~Agree(Case.vkres, Bounded) THEN "key generation ends with " \o Case.vkres \o ", specified " \o ToString(Bounded.err)
    ELSE IF Bounded.err = {} /\ \E c \in TCols : At(Case.fixed, c) # Commit(Content(c)) THEN
        "fixed commitment of table column " \o ToString(CHOOSE c \in TCols : At(Case.fixed, c) # Commit(Content(c)))
    ELSE IF Bounded.err = {} /\ Case.pkres # "ok" THEN "proving key: " \o Case.pkres
    ELSE "ok"
Mock ==
    LET bad == {i \in DOMAIN Case.mock : ~Agree(Case.mock[i].res, Bounded)}
        \* lookup inputs of variant i are the pair (x, y): found or not
        miss(i) == LET p == Case.pairs[i] IN ~\E r \in 0..(Usable(Prog) - 1) : \A j \in DOMAIN p : Content(Case.lcols[j])[r] = p[j]
        off == {i \in DOMAIN Case.mock : Case.mock[i].res = "ok" /\ Case.pairs # <<>> /\ (Case.mock[i].n > 0) # miss(i)}
        poff == {i \in DOMAIN Case.proofs : Case.proofs[i] # "none" /\ (Case.proofs[i] # "ok") # miss(i)}
    IN IF bad # {} THEN "mock prover ends with " \o Case.mock[CHOOSE i \in bad : TRUE].res \o ", specified " \o ToString(Bounded.err)
       ELSE IF Bounded.err = {} /\ off # {} THEN "mock verdict on looking up " \o ToString(Case.pairs[CHOOSE i \in off : TRUE])
       ELSE IF Bounded.err = {} /\ poff # {} THEN "proof verdict on looking up " \o ToString(Case.pairs[CHOOSE i \in poff : TRUE])
       ELSE "ok"
Init == cid \in DOMAIN Cases /\ pc = 0
Next == /\ pc < 3 /\ pc' = pc + 1 /\ cid' = cid
        /\ LET w == CASE pc = 0 -> Recorder [] pc = 1 -> Keys [] OTHER -> Mock
           IN (w # "ok" => Reject(Case.id, "0: " \o w)) /\ (pc = 2 => Done(Case.id))
=============================================================================
