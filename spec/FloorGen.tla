------------------------------ MODULE FloorGen ------------------------------
(* Enumerates every sequence of at most MaxRegions regions drawn from a set   *)
(* of shapes over two advice columns, one fixed column (also the constants    *)
(* column) and one selector.                                                  *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT MaxRegions
Shapes == {
    <<>>,                                                                  \* nothing at all
    <<<<"adv", 0, 0, <<1, 2>>>>>>,
    <<<<"adv", 1, 2, <<3, 4>>>>>>,                                         \* starts with a gap
    <<<<"adv", 0, 0, <<1, 2>>>>, <<"adv", 1, 1, <<3, 4>>>>>>,              \* staircase
    <<<<"adv", 0, 1, <<1, 2>>>>, <<"adv", 0, 0, <<5, 6>>>>>>,              \* backwards
    <<<<"sel", 0, 0>>>>,                                                   \* selector only
    <<<<"sel", 0, 2>>, <<"adv", 1, 0, <<7, 8>>>>>>,
    <<<<"fix", 0, 1, 9>>>>,                                                \* in the constants column
    <<<<"fix", 0, 0, 9>>, <<"adv", 0, 2, <<1, 2>>>>>>,
    <<<<"advc", 0, 0, 11>>>>,
    <<<<"advc", 1, 1, 11>>, <<"advc", 1, 0, 12>>, <<"fix", 0, 0, 13>>>>,
    <<<<"adv", 0, 0, <<1, 2>>>>, <<"eq", <<"l", 0>>, <<"l", 0>>>>>>,       \* tied to itself
    <<<<"adv", 0, 0, <<1, 2>>>>, <<"copy", <<"l", 0>>, 1, 0>>, <<"cc", <<"l", 1>>, 14>>, <<"cc", <<"l", 1>>, 14>>>>
}
VARIABLE ops
Init == ops = <<>>
Next == /\ Len(ops) < MaxRegions
        /\ \E s \in Shapes : ops' = Append(ops, s)
        /\ PrintT("GEN|" \o ToJson(ops'))
=============================================================================
