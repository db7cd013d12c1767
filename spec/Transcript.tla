---------------------------- MODULE Transcript ----------------------------
(* The Fiat-Shamir transcript.  What it stands for: the list of everything    *)
(* absorbed so far, in order and by kind, challenges included; a challenge is *)
(* an injective function of that list.  What the code does: append bytes to a *)
(* hash.  EncodingInjective says that the byte encoding loses nothing: checked*)
(* here over every pair of histories with a small alphabet in which every     *)
(* byte value is also a tag.  With Weak # "none" the encoding is damaged in   *)
(* one way; TLC then finds two histories it confuses (used to choose what is  *)
(* replayed into the real transcripts, see Collide).                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Weak, MaxLen, Points
VARIABLES h1, h2

Dig == 0..2
SomePoints == {<<1, 0>>, <<0, 1>>, <<1, 2>>, <<2, 1>>}
AllPoints == {<<x, y>> : x \in Dig, y \in Dig}
Item == {<<"sq">>} \cup {<<"s", v>> : v \in Dig} \cup {<<"p", pt>> : pt \in Points}

Tag(k) == CASE k = "sq" -> 0
            [] k = "p" -> IF Weak = "tags" THEN 2 ELSE 1
            [] OTHER -> 2
Enc(i) ==
    CASE i[1] = "sq" -> IF Weak = "nosqueeze" THEN <<>> ELSE <<Tag("sq")>>
      [] i[1] = "p" -> (IF Weak = "notag" THEN <<>> ELSE <<Tag("p")>>) \o (IF Weak = "xonly" THEN <<i[2][1]>> ELSE i[2])
      [] OTHER -> (IF Weak = "notag" THEN <<>> ELSE <<Tag("s")>>) \o <<i[2]>>
RECURSIVE EncAll(_)
EncAll(h) == IF h = <<>> THEN <<>> ELSE Enc(Head(h)) \o EncAll(Tail(h))

\* both grow at once until they differ, then each may grow on
Init == h1 = <<>> /\ h2 = <<>>
Next == \/ \E i \in Item : Len(h1) < MaxLen /\ h1' = Append(h1, i) /\ h2' = h2
        \/ \E i \in Item : Len(h2) < Len(h1) /\ h2' = Append(h2, i) /\ h1' = h1
EncodingInjective == h1 # h2 => EncAll(h1) # EncAll(h2)
=============================================================================
