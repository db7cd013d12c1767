------------------------------ MODULE TableGen ------------------------------
(* Assignment of lookup tables as a state machine: the tables of a circuit are *)
(* assigned one after the other, each cell by cell.                            *)
(* State: which columns earlier tables used; for the current table, the rows   *)
(* of each column assigned so far.  This module enumerates all short histories *)
(* and checks on each that the outcome is well defined: a finished table leaves*)
(* every column with a gap-free prefix of one common length.                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Cols, Rows, MaxCells, MaxTables
VARIABLES hist, used, cur, err
vars == <<hist, used, cur, err>>

Init == hist = <<<<>>>> /\ used = {} /\ cur = [c \in Cols |-> {}] /\ err = ""
NC == Len(hist[Len(hist)])
Total == LET f[i \in 0..Len(hist)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(hist[i]) IN f[Len(hist)]

Assign(c, r) ==
    /\ err = "" /\ Total < MaxCells
    /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, <<c, r>>)]
    /\ err' = IF c \in used THEN "UsedColumn" ELSE IF r = 0 /\ 0 \in cur[c] THEN "OverwriteDefault" ELSE ""
    /\ cur' = [cur EXCEPT ![c] = @ \cup {r}]
    /\ used' = used
Touched == {c \in Cols : cur[c] # {}}
Full(c) == \E n \in Nat : cur[c] = 0..(n - 1)
Gap(c) == \E r \in Rows : r \notin cur[c] /\ \E s \in cur[c] : s > r
Finish ==
    /\ err = "" /\ Len(hist) < MaxTables /\ NC > 0
    /\ err' = IF \E c \in Touched : Gap(c) THEN "ColumnNotAssigned"
              ELSE IF \E c, d \in Touched : Cardinality(cur[c]) # Cardinality(cur[d]) THEN "UnevenColumnLengths" ELSE ""
    /\ used' = used \cup Touched
    /\ cur' = [c \in Cols |-> {}]
    /\ hist' = Append(hist, <<>>)
Next == /\ \/ \E c \in Cols, r \in Rows : Assign(c, r)
           \/ Finish
        /\ (hist'[Len(hist')] # <<>> => PrintT("GEN|" \o ToJson(hist')))
NoGapBeforeNextTable == err = "" => \A c \in Touched : c \notin used
=============================================================================
