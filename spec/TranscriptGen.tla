--------------------------- MODULE TranscriptGen ---------------------------
(* Operation sequences on a transcript and the abstract history each one       *)
(* stands for.  Absorbing a value both sides know ("cs","cp") and sending it   *)
(* ("ws","wp") leave the same history.                                         *)
(* Contents are names, given meaning by the harness: P, its negation, another  *)
(* point Q, points R0, R1, R2 whose y coordinate is 0, 1, 2 modulo 256 (a      *)
(* byte that equals a tag), and scalars equal to coordinates of those points   *)
(* or to y \div 256 - the values under which a damaged encoding confuses two   *)
(* histories (Transcript.tla).                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS MaxLen, MaxCommon
VARIABLES ops, todo
Pts == {"P", "-P", "Q"}
Scs == {"0", "1", "x", "y"}
Common == {<<"sq", "">>} \cup {<<"cp", p>> : p \in Pts} \cup {<<"cs", s>> : s \in Scs}
All == Common \cup {<<"wp", p>> : p \in Pts} \cup {<<"ws", s>> : s \in Scs}
\* one point or scalar per tag value, to be confused with each other
Tags(i) == {<<"sq", "">>, <<"cp", "R" \o i>>, <<"cs", "x" \o i>>, <<"cs", "h" \o i>>, <<"cs", "y" \o i>>}
Seqs == UNION {[1..n -> All] : n \in 1..MaxLen} \cup UNION {[1..n -> Common] : n \in 1..MaxCommon}
        \cup UNION {UNION {[1..n -> Tags(i)] : n \in 1..MaxCommon} : i \in {"0", "1", "2"}}
Kind(k) == CASE k \in {"cp", "wp"} -> "p" [] k \in {"cs", "ws"} -> "s" [] OTHER -> "sq"
RECURSIVE Hist(_)
Hist(o) == IF o = <<>> THEN "" ELSE Hist(Front(o)) \o Kind(Last(o)[1]) \o Last(o)[2] \o ";"
Init == ops \in Seqs /\ todo = TRUE
Next == todo /\ todo' = FALSE /\ ops' = ops
        /\ PrintT("GEN|" \o ToJson([o |-> ops, h |-> Hist(ops)]))
=============================================================================
