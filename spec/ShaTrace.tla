------------------------------ MODULE ShaTrace ------------------------------
(* Runs of the Table16 SHA-256 chip, and what its constraints determine.      *)
(*   sys     the circuit; all runs of one shape must have the same            *)
(*   runs    words, digest (halves << high, low >>) and values of the cells   *)
(*   asks    questions: with the variables fix given, is every variable of    *)
(*           one of the sets any determined, whatever the witness is?         *)
EXTENDS Forced, Sha256, Json
Data == JsonDeserialize("cases.json")
VARIABLES step
S(q) == {q[j] : j \in 1..Len(q)}
NR == Len(Data.runs)
NA == Len(Data.asks)
Reject(id, why) == PrintT("REJECT|" \o ToString(id) \o "|" \o why)
Run(r) ==
  \A d \in {Chip(r.words)} :
  /\ IF r.digest = Hash(IV, r.words) THEN TRUE
     ELSE IF r.digest = d THEN Reject(r.id, "the output of the compression function without the chaining value [no-feed-forward]")
     ELSE Reject(r.id, "digest " \o ToString(r.digest) \o " instead of " \o ToString(d))
  /\ IF Len(r.w) = 0 THEN TRUE
     ELSE \A bad \in {Violated([Data.sys EXCEPT !.w = r.w], <<>>)} :
             IF bad # {} THEN Reject(r.id, "an honest witness violates constraints " \o ToString(bad)) ELSE TRUE
  /\ PrintT("DONE|" \o ToString(r.id))
Ask(a) ==
  \A f \in {ForcedVars(Data.sys, S(a.fix), S(a.small))} :
     /\ \A k \in 1..Len(a.want) :
          LET w == a.want[k] IN
          IF \E g \in 1..Len(w.any) : S(w.any[g]) \subseteq f THEN TRUE
          ELSE Reject(a.id, w.name)
     /\ PrintT("FORCED|" \o a.name \o "|" \o ToString(Cardinality(f)) \o "|" \o ToString(Data.sys.n))
     /\ PrintT("DONE|" \o ToString(a.id))
(* the lookup table contains the spread form of every 16-bit number, with its tag, and nothing else *)
Row(x) == << Big(Tag(x)), Big(x), IAdd(Big(SpreadLo(x)), IMul(Big(SpreadHi(x)), "10000")) >>
Table ==
  IF ~ Data.table THEN TRUE
  ELSE /\ IF \E t \in 1..Len(Data.sys.tabs) : S(Data.sys.tabs[t]) = {Row(x) : x \in 0..65535} THEN TRUE
          ELSE Reject(0, "the spread table is not the table of all 16-bit numbers")
       /\ PrintT("DONE|table")
Init == step = 0
Next == /\ step < NR + NA + 1
        /\ step' = step + 1
        /\ IF step' <= NR THEN Run(Data.runs[step'])
           ELSE IF step' <= NR + NA THEN Ask(Data.asks[step' - NR]) ELSE Table
=============================================================================
