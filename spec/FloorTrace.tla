----------------------------- MODULE FloorTrace -----------------------------
(* C01: a floor planner may choose where each region starts, and where the    *)
(* cells realising constants go; everything else about the layout is          *)
(* determined by the program.  The planner is the nondeterministic machine    *)
(*                                                                            *)
(*   PlaceRegion(i, start)   - start free, rectangle disjoint from those      *)
(*                             already claimed                                *)
(*   PlaceTable(i)           - absolute rows                                  *)
(*   PlaceConstant(c, v)     - any constants column, any unclaimed row        *)
(*                                                                            *)
(* and a recorded synthesis is accepted iff it is one of its behaviours.  One *)
(* TLC step places the next operation of the program.                         *)
EXTENDS Plonkish, Json, TLC, Report

Cases == JsonDeserialize("cases.json")

VARIABLES cid,    \* case
          run,    \* recording (witness variant) of the case
          op,     \* next operation of the program
          bpos,   \* event position reached (in brackets)
          items,  \* cells handed out so far: sequence of [cell, v]
          claim,  \* {<<column kind, column, lo, hi, owner>>}
          eqs,    \* required equalities (unordered pairs)
          consts, \* required constants {<<cell, v>>} as a sequence
          fixed,  \* fixed cells explained by regions and tables {<<c, r, v>>}
          bad     \* "" or what is wrong
vars == <<cid, run, op, bpos, items, claim, eqs, consts, fixed, bad>>

Case == Cases[cid]
Prog == Case.prog
Run == Case.rec[run]
Ev == Run.ev
IsTable(o) == o.op = "table"
Tables == {i \in DOMAIN Prog.ops : IsTable(Prog.ops[i])}

Pair(a, b) == {a, b}

\* a value as written in the program: <<integer>> or <<num, den>>; 1/0 is 0
Val(v) == IF Len(v) = 1 THEN v[1] % P ELSE MulM(v[1], IF v[2] % P = 0 THEN 0 ELSE InvM(v[2], P), P)
AdvVal(vs) == IF ~Run.known THEN -1 ELSE LET v == vs[(Run.variant % Len(vs)) + 1] IN Val(v)
InstVal(c, r) == IF ~Run.known THEN -1
                 ELSE LET x == At(Prog.inst[Run.variant + 1], c) IN IF r < Len(x) THEN At(x, r) ELSE 0

---------------------------------------------------------------------------
(* What a region asks for, relative to its start s.                           *)
(* acc = [loc, adv, fix, sel, eqs, consts, inst]                              *)
RECURSIVE Ask(_, _, _, _)
Ask(acts, s, i, acc) ==
    IF i > Len(acts) THEN acc
    ELSE LET a == acts[i]
             ref(x) == IF x[1] = "l" THEN At(acc.loc, x[2]) ELSE At(items, x[2])
             adv(c, o, v) == [acc EXCEPT !.adv = @ \cup {<<c, s + o, v>>},
                                         !.loc = Append(@, [cell |-> <<"a", c, s + o>>, v |-> v])]
             nxt == CASE a[1] = "sel" -> [acc EXCEPT !.sel = @ \cup {<<a[2], s + a[3]>>}]
                      [] a[1] = "adv" -> adv(a[2], a[3], AdvVal(a[4]))
                      [] a[1] = "fix" -> [acc EXCEPT !.fix = @ \cup {<<a[2], s + a[3], Val(a[4])>>},
                                                     !.loc = Append(@, [cell |-> <<"f", a[2], s + a[3]>>, v |-> Val(a[4])])]
                      [] a[1] = "advc" -> [adv(a[2], a[3], Val(a[4])) EXCEPT !.consts = Append(@, <<<<"a", a[2], s + a[3]>>, Val(a[4])>>)]
                      [] a[1] = "advi" -> [adv(a[2], a[3], InstVal(a[4], a[5]))
                                           EXCEPT !.eqs = @ \cup {Pair(<<"a", a[2], s + a[3]>>, <<"i", a[4], a[5]>>)},
                                                  !.inst = Append(@, InstVal(a[4], a[5]))]
                      [] a[1] = "ival" -> [acc EXCEPT !.inst = Append(@, InstVal(a[2], a[3]))]
                      [] a[1] = "cc" -> [acc EXCEPT !.consts = Append(@, <<ref(a[2]).cell, Val(a[3])>>)]
                      [] a[1] = "eq" -> [acc EXCEPT !.eqs = @ \cup {Pair(ref(a[2]).cell, ref(a[3]).cell)}]
                      [] OTHER -> [adv(a[3], a[4], ref(a[2]).v) EXCEPT !.eqs = @ \cup {Pair(ref(a[2]).cell, <<"a", a[3], s + a[4]>>)}]
         IN Ask(acts, s, i + 1, nxt)
Empty == [loc |-> <<>>, adv |-> {}, fix |-> {}, sel |-> {}, eqs |-> {}, consts |-> <<>>, inst |-> <<>>]

\* <<column kind, column, offset>> of each cell or selector a region touches
Touch(a) == CASE a[1] = "sel" -> <<"s", a[2], a[3]>>
              [] a[1] = "fix" -> <<"f", a[2], a[3]>>
              [] a[1] = "copy" -> <<"a", a[3], a[4]>>
              [] OTHER -> <<"a", a[2], a[3]>>
Touches(acts) == {Touch(acts[i]) : i \in {i \in DOMAIN acts : acts[i][1] \notin {"eq", "cc", "ival"}}}

---------------------------------------------------------------------------
RECURSIVE NextBracket(_)
NextBracket(i) == IF i > Len(Ev) THEN 0 ELSE IF Ev[i].e = "enter" THEN i ELSE NextBracket(i + 1)
RECURSIVE Exit(_)
Exit(i) == IF i > Len(Ev) THEN 0 ELSE IF Ev[i].e = "exit" THEN i ELSE Exit(i + 1)

Cells(evs, k) == {<<e.c, e.r, e.v>> : e \in {e \in evs : e.e = k}}
Disjoint(new) == \A x \in new : \A y \in claim : x[1] = y[1] /\ x[2] = y[2] => x[4] < y[3] \/ y[4] < x[3]

PlaceRegion(o) ==
    LET b == NextBracket(bpos)
        e == Exit(b)
        evs == {Ev[i] : i \in (b + 1)..(e - 1)}
        tch == Touches(o.acts)
        rows == {x.r : x \in {x \in evs : x.e \in {"sel", "adv", "fix"}}}
        start == MinOf(rows, 0) - MinOf({t[3] : t \in tch}, 0)
        ask == Ask(o.acts, start, 1, Empty)
        height == MaxOf({t[3] : t \in tch}, 0) + 1
        rect == {<<t[1], t[2], start, start + height - 1, op>> : t \in tch}
    IN IF b = 0 \/ e = 0 THEN /\ bad' = "region not laid out" /\ UNCHANGED <<bpos, items, claim, eqs, consts, fixed>>
       ELSE /\ bpos' = e + 1
            /\ items' = items \o ask.loc
            /\ claim' = claim \cup rect
            /\ eqs' = eqs \cup ask.eqs
            /\ consts' = consts \o ask.consts
            /\ fixed' = fixed \cup ask.fix
            /\ bad' = IF start < 0 THEN "region before row 0"
                      ELSE IF {<<x.c, x.r>> : x \in {x \in evs : x.e = "sel"}} # ask.sel THEN "selectors of region " \o ToString(op)
                      ELSE IF Cells(evs, "adv") # ask.adv THEN "advice cells of region " \o ToString(op)
                      \* (planners may also put the region's constants inside its bracket)
                      ELSE IF ~(ask.fix \subseteq Cells(evs, "fix")) THEN "fixed cells of region " \o ToString(op)
                      ELSE IF {x \in evs : x.e \in {"fill"}} # {} THEN "table fill in region " \o ToString(op)
                      ELSE IF ~Disjoint(rect) THEN "region " \o ToString(op) \o " overlaps what was placed before"
                      ELSE ""

PlaceTable(o) ==
    LET b == NextBracket(bpos)
        e == Exit(b)
        evs == {Ev[i] : i \in (b + 1)..(e - 1)}
        want == {<<o.cells[i][1], o.cells[i][2], Val(o.cells[i][3])>> : i \in DOMAIN o.cells}
        rect == {<<"f", c[1], 0, N(Prog), op>> : c \in want}
    IN IF b = 0 \/ e = 0 THEN /\ bad' = "table not laid out" /\ UNCHANGED <<bpos, items, claim, eqs, consts, fixed>>
       ELSE /\ bpos' = e + 1
            /\ claim' = claim \cup rect
            /\ fixed' = fixed \cup want
            /\ bad' = IF ~(want \subseteq Cells(evs, "fix")) THEN "cells of table " \o ToString(op)
                      ELSE IF {x \in evs : x.e \in {"sel", "adv"}} # {} THEN "foreign cells in table " \o ToString(op)
                      ELSE IF ~Disjoint(rect) THEN "table " \o ToString(op) \o " overlaps"
                      ELSE ""
            /\ UNCHANGED <<items, eqs, consts>>

ConstrainInstance(o) ==
    /\ eqs' = eqs \cup {Pair(At(items, o.cell).cell, <<"i", o.c, o.row>>)}
    /\ bad' = ""
    /\ UNCHANGED <<bpos, items, claim, consts, fixed>>

Shape(ev) == {IF e.e = "adv" THEN [e EXCEPT !.v = 0] ELSE e : e \in ToSet(ev)}

Reads == \* values handed to the circuit for instance cells, in program order
    LET f[i \in 0..Len(Prog.ops)] ==
        IF i = 0 THEN <<>>
        ELSE LET o == Prog.ops[i]
             IN f[i - 1] \o (IF o.op # "region" THEN <<>>
                             ELSE LET s == SelectSeq(o.acts, LAMBDA a : a[1] \in {"advi", "ival"})
                                  IN [j \in DOMAIN s |-> IF s[j][1] = "advi" THEN InstVal(s[j][4], s[j][5]) ELSE InstVal(s[j][2], s[j][3])])
    IN f[Len(Prog.ops)]

\* what remains once everything the program names is accounted for
Leftover ==
    LET all == ToSet(Ev)
        cps == {Pair(e.a, e.b) : e \in {e \in all : e.e = "copy"}}
        fx == Cells(all, "fix")
        extra == fx \ fixed                 \* fixed cells the planner added
        reqs == ToSet(consts)
        tied(q) == {x \in extra : x[3] = q[2] /\ Pair(q[1], <<"f", x[1], x[2]>>) \in cps}
        used == UNION {tied(q) : q \in reqs}
        cp2 == UNION {{Pair(q[1], <<"f", x[1], x[2]>>) : x \in tied(q)} : q \in reqs}
        tcols == UNION {{o.cells[i][1] : i \in DOMAIN o.cells} : o \in {o \in ToSet(Prog.ops) : IsTable(o)}}
    IN IF \E q \in reqs : tied(q) = {} THEN "constant " \o ToString(CHOOSE q \in reqs : tied(q) = {}) \o " not realised"
       ELSE IF \E q1, q2 \in reqs : q1 # q2 /\ q1[2] # q2[2] /\ \E x \in tied(q1) : \E y \in tied(q2) : x[1] = y[1] /\ x[2] = y[2] THEN "two constants in one cell"
       ELSE IF extra # used THEN "unrequested fixed cell " \o ToString(CHOOSE x \in extra : x \notin used)
       ELSE IF \E x \in extra : x[1] \notin ToSet(Prog.consts) THEN "constant in a column not enabled for constants"
       ELSE IF \E x \in extra : \E y \in claim : y[1] = "f" /\ y[2] = x[1] /\ y[3] <= x[2] /\ x[2] <= y[4] THEN "constant placed inside a region or table"
       ELSE IF ~(eqs \subseteq cps) THEN "equality not passed on: " \o ToString(CHOOSE q \in eqs : q \notin cps)
       ELSE IF ~(cps \subseteq eqs \cup cp2) THEN "unrequested equality " \o ToString(CHOOSE q \in cps : q \notin eqs \cup cp2)
       ELSE IF \E e \in all : e.e = "fill" /\ e.c \notin tcols THEN "fill of a column that is no table"
       ELSE IF NextBracket(bpos) # 0 THEN "more regions than the program has"
       ELSE IF \E e \in all : e.e \in {"sel"} /\ ~\E y \in claim : y[1] = "s" /\ y[2] = e.c /\ y[3] <= e.r /\ e.r <= y[4] THEN "stray selector"
       ELSE IF \E e \in all : e.e = "adv" /\ ~\E y \in claim : y[1] = "a" /\ y[2] = e.c /\ y[3] <= e.r /\ e.r <= y[4] THEN "stray advice cell"
       ELSE IF Shape(Ev) # Shape(Case.rec[1].ev) THEN "layout depends on the witness"
       ELSE IF Run.res = "ok" /\ Run.known /\ SelectSeq(Run.iread, LAMBDA x : x >= 0) # Reads THEN "wrong instance value read"
       ELSE ""
(* Refusing is right only when there is nowhere to put a constant: no column  *)
(* is enabled for constants, or (two-pass planner, which does not grow the    *)
(* circuit for constants) no free row is left in them next to the regions.    *)
NEC == "NotEnoughColumnsForConstants"
Wants == \E o \in ToSet(Prog.ops) : o.op = "region" /\ \E a \in ToSet(o.acts) : a[1] \in {"advc", "cc"}
NoColumn == Prog.consts = <<>> /\ Wants
Walk == Run.res = "ok" \/ (Run.res = NEC /\ ~NoColumn)
Free == LET rows == 0..MaxOf({y[4] : y \in {y \in claim : y[5] \notin Tables}}, -1)
        IN {x \in ToSet(Prog.consts) \X rows : ~\E y \in claim : y[1] = "f" /\ y[2] = x[1] /\ y[3] <= x[2] /\ x[2] <= y[4]}
Verdict == IF NoColumn THEN (IF Run.res = NEC THEN "" ELSE "constants without a column for them: " \o Run.res)
           ELSE IF Run.res = "ok" THEN Leftover
           ELSE IF Run.res = NEC /\ Prog.fp = "v1" /\ Len(consts) > Cardinality(Free) THEN ""
           ELSE "synthesis ended with " \o Run.res

Start == /\ op = 1 /\ bpos = 1 /\ items = <<>> /\ claim = {} /\ eqs = {} /\ consts = <<>> /\ fixed = {} /\ bad = ""
Init == /\ cid \in DOMAIN Cases
        /\ run = 1
        /\ Start

Step ==
    /\ bad = "" /\ Walk /\ op <= Len(Prog.ops)
    /\ LET o == Prog.ops[op]
       IN CASE IsTable(o) -> PlaceTable(o)
            [] o.op = "region" -> PlaceRegion(o)
            [] OTHER -> ConstrainInstance(o)
    /\ op' = op + 1
    /\ UNCHANGED <<cid, run>>
    /\ (bad' # "" => Reject(Case.id, ToString(run - 1) \o ": " \o bad'))

NextRun ==
    /\ bad = "" /\ run <= Len(Case.rec)
    /\ \/ ~Walk \/ op > Len(Prog.ops)
    /\ LET w == Verdict
       IN /\ (w # "" => Reject(Case.id, ToString(run - 1) \o ": " \o w))
          /\ bad' = w
          /\ (w = "" /\ run = Len(Case.rec) => Done(Case.id))
    /\ run' = run + 1
    /\ op' = 1 /\ bpos' = 1 /\ items' = <<>> /\ claim' = {} /\ eqs' = {} /\ consts' = <<>> /\ fixed' = {}
    /\ UNCHANGED cid
Next == run <= Len(Case.rec) /\ (Step \/ NextRun)
\* the state stays a legal plan throughout
NoOverlap == bad = "" => \A x, y \in claim : x[5] # y[5] /\ x[1] = y[1] /\ x[2] = y[2] => x[4] < y[3] \/ y[4] < x[3]
=============================================================================
