---------------------------- MODULE PermAssembly ----------------------------
(* C02: the copy-constraint assembly.  A state machine whose only action is   *)
(* an equality request; cycles are merged smaller into larger, as described   *)
(* in the book ("permutation argument").  TLC explores every history over     *)
(* Cells; the invariant is that the cycles are exactly the classes requested. *)
(* With KeepHist the histories themselves are printed for replay.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NC,        \* number of cells
          Fused,     \* cells that cannot be tied to each other through the API (instance cells)
          MaxLen, KeepHist
Cells == 0..(NC - 1)
VARIABLES next, rep, size, cls, hist
vars == <<next, rep, size, cls, hist>>

Init == /\ next = [c \in Cells |-> c] /\ rep = [c \in Cells |-> c] /\ size = [c \in Cells |-> 1]
        /\ cls = {{c} : c \in Cells} /\ hist = <<>>

RECURSIVE Orbit(_, _)
Orbit(c, S) == IF c \in S THEN S ELSE Orbit(next[c], S \cup {c})
Cycle(c) == Orbit(c, {})
Class(c) == CHOOSE S \in cls : c \in S

Request(a, b) ==
    /\ cls' = (cls \ {Class(a), Class(b)}) \cup {Class(a) \cup Class(b)}
    /\ IF rep[a] = rep[b] THEN UNCHANGED <<next, rep, size>>
       ELSE LET big == IF size[rep[a]] < size[rep[b]] THEN rep[b] ELSE rep[a]
                sml == IF big = rep[a] THEN rep[b] ELSE rep[a]
            IN /\ size' = [size EXCEPT ![big] = @ + size[sml]]
               /\ rep' = [c \in Cells |-> IF c \in Cycle(sml) THEN big ELSE rep[c]]
               /\ next' = [next EXCEPT ![a] = next[b], ![b] = next[a]]
    /\ hist' = IF KeepHist THEN Append(hist, <<a, b>>) ELSE hist
    /\ KeepHist => PrintT("GEN|" \o ToJson(hist'))
Next == /\ Len(hist) < MaxLen
        /\ \E a, b \in Cells : ~(a \in Fused /\ b \in Fused) /\ Request(a, b)

CyclesAreClasses == {Cycle(c) : c \in Cells} = cls
RepsIdentifyCycles == \A c, d \in Cells : rep[c] = rep[d] <=> Cycle(c) = Cycle(d)
SizesRight == \A c \in Cells : size[rep[c]] = Cardinality(Cycle(c))
=============================================================================
