------------------------------ MODULE GadgetRel ------------------------------
(* What each gadget promises about the values at its interface.               *)
(*   InDomain(c)   the inputs of case c are ones the gadget accepts           *)
(*   Expected(c)   interface values of an honest run                          *)
(*   Rel(c, io)    interface values any accepted witness may have             *)
(* Values are hexadecimal strings modulo c.p (see BigField).                  *)
EXTENDS Integers, Sequences, FiniteSets, BigField, SequencesExt, Poseidon, Curve, Sinsemilla

Cut(s, from, n) == SubSeq(s, from, from + n - 1)

Pow2(n) == ShlB("1", n)
Below(x, n) == LtB(x, Pow2(n))

(* ------------------------------------------------------- swap, mux *)
SwapLen(o) == IF o.op = "swap" THEN 3 ELSE 4
SwapExp(o) ==
  LET a == Big(o.v[1])  b == Big(o.v[2])  s == Big(o.v[3]) IN
  IF o.op = "swap" THEN (IF s = "1" THEN <<a, b, a>> ELSE <<a, a, b>>)
  ELSE <<a, b, s, IF s = "1" THEN b ELSE a>>
SwapRel(o, x) ==
  IF o.op = "swap" THEN x[2] = x[1] \/ x[3] = x[1]
  ELSE x[3] \in {"0", "1"} /\ x[4] = (IF x[3] = "0" THEN x[1] ELSE x[2])
SwapDom(o) == o.op = "swap" \/ Big(o.v[3]) \in {"0", "1"}

(* ------------------------------------------------------- range checks and running sums *)
Chain(z, w, p) == \A i \in 1..(Len(z) - 1) : Below(SubB(z[i], MulB(z[i + 1], Pow2(w), p), p), w)
Shifts(v, w, n) == [i \in 1..(n + 1) |-> ShrB(v, w * (i - 1))]
\* with fewer bits than the modulus the decomposition is unique
Unique(z, w, n, p) ==
  (w * n < BitLenB(p)) => (Below(z[1], w * n) /\ \A i \in 1..(n + 1) : z[i] = ShrB(z[1], w * (i - 1)))
RangeLen(o) == IF o.op \in {"copy", "witness"} THEN o.n + 1 ELSE 1
RangeExp(o, K) ==
  CASE o.op \in {"copy", "witness"} -> Shifts(Big(o.v), K, o.n)
    [] o.op \in {"copyshort", "short"} -> <<Big(o.v)>>
    [] o.op = "range" -> <<LowB(ShrB(o.v, o.s), o.n)>>
RangeRel(o, K, z, p) ==
  IF o.op \in {"copy", "witness"}
  THEN Chain(z, K, p) /\ (o.strict => (z[o.n + 1] = "0" /\ Unique(z, K, o.n, p)))
  ELSE Below(z[1], o.n)
RangeDom(o, K) ==
  CASE o.op \in {"copy", "witness"} -> o.strict => Below(Big(o.v), K * o.n)
    [] o.op \in {"copyshort", "short"} -> Below(Big(o.v), o.n)
    [] o.op = "range" -> TRUE
SumLen(o) == o.n + 1
SumExp(o, W) == Shifts(Big(o.v), W, o.n)
SumRel(o, W, z, p) == Chain(z, W, p) /\ (o.strict => (z[o.n + 1] = "0" /\ Unique(z, W, o.n, p)))
SumDom(o, W) == o.strict => Below(Big(o.v), IF o.bits < W * o.n THEN o.bits ELSE W * o.n)

(* ------------------------------------------------------- Poseidon *)
Words(v) == [i \in 1..Len(v) |-> Big(v[i])]
Msg(o) == SelectSeq([i \in 1..Len(o.v) |-> <<i - 1, Big(o.v[i])>>], LAMBDA x : o.op # "sponge" \/ \A j \in 1..Len(o.pad) : o.pad[j] # x[1])
MsgVals(o) == LET m == Msg(o) IN TLCEval([i \in 1..Len(m) |-> m[i][2]])
\* the absorbed words when the message words are x
Filled(o, x) ==
  IF o.op # "sponge" THEN x
  ELSE LET m == Msg(o) IN
       TLCEval([i \in 1..Len(o.v) |->
         IF \E j \in 1..Len(m) : m[j][1] = i - 1 THEN x[CHOOSE j \in 1..Len(m) : m[j][1] = i - 1] ELSE Big(o.v[i])])
PosOut(o, x, q) ==
  CASE o.op = "hash" -> <<HashC(x, q)>>
    [] o.op = "permute" -> Permute(x, q)
    [] o.op = "sponge" -> Squeeze(Absorb(Start(3, q), Filled(o, x), q), o.n, q)
PosIn(o) == Len(Msg(o))
PosLen(o, q) == PosIn(o) + (CASE o.op = "hash" -> 1 [] o.op = "permute" -> q.t [] o.op = "sponge" -> o.n)
PosExp(o, q) == MsgVals(o) \o PosOut(o, MsgVals(o), q)
PosRel(o, z, q) == SubSeq(z, PosIn(o) + 1, Len(z)) = PosOut(o, SubSeq(z, 1, PosIn(o)), q)

(* ------------------------------------------------------- elliptic curve points (Pallas) *)
(* the identity is written (0, 0); the fixed bases are B_1 = (-1, 2) and B_2 = [Second] B_1 *)
Second == "1234567"
Base(b) == LET g == <<NegB("1", PallasP), "2">> IN IF b = 1 THEN g ELSE MulP(Second, g, PallasP)
BasesTab == TLCEval(<<Base(1), Base(2)>>)
Xy(P) == IF P = O THEN <<"0", "0">> ELSE P
Pt(j) == IF Len(j) = 0 THEN O ELSE <<Big(j[1]), Big(j[2])>>
\* the point at positions i, i + 1 of the interface
At(z, i) == IF z[i] = "0" /\ z[i + 1] = "0" THEN O ELSE <<z[i], z[i + 1]>>
PtOk(z, i) == OnCurve(At(z, i), PallasP)
NiOk(z, i) == At(z, i) # O /\ PtOk(z, i)
TypeOk(o, j, z, i) == IF o.t[j] = "n" THEN NiOk(z, i) ELSE PtOk(z, i)
AddQ(P, Q) == AddP(P, Q, PallasP)
MulQ(n, P) == MulP(n, P, PallasP)
\* [m] P for a signed short m
SignedQ(m, s, P) == IF s = "1" THEN MulQ(m, P) ELSE NegP(MulQ(m, P), PallasP)
Minus1 == NegB("1", PallasP)
EccLen(o) ==
  CASE o.op \in {"pt", "nonid", "const"} -> 2
    [] o.op \in {"add", "addinc"} -> 6
    [] o.op \in {"addself", "eq"} -> 4
    [] o.op = "x" -> 3
    [] o.op = "sign" -> 5
    [] o.op = "mul" -> 1 + 4 * (Len(o.v) - 1)
    [] o.op = "full" -> 2 * Len(o.bases)
    [] o.op = "base" -> 1 + 2 * Len(o.bases)
    [] o.op = "short" -> 2 + 2 * Len(o.bases)
    [] o.op = "mux" -> 7
EccExp(o) ==
  CASE o.op \in {"pt", "nonid", "const"} -> Xy(Pt(o.v[1]))
    [] o.op \in {"add", "addinc"} -> Xy(Pt(o.v[1])) \o Xy(Pt(o.v[2])) \o Xy(AddQ(Pt(o.v[1]), Pt(o.v[2])))
    [] o.op = "addself" -> Xy(Pt(o.v[1])) \o Xy(AddQ(Pt(o.v[1]), Pt(o.v[1])))
    [] o.op = "eq" -> Xy(Pt(o.v[1])) \o Xy(Pt(o.v[2]))
    [] o.op = "x" -> Xy(Pt(o.v[1])) \o <<Xy(Pt(o.v[1]))[1]>>
    [] o.op = "sign" -> Xy(Pt(o.v[1])) \o <<Big(o.v[2])>> \o Xy(SignedQ("1", Big(o.v[2]), Pt(o.v[1])))
    [] o.op = "mul" -> <<Big(o.v[1])>> \o FlattenSeq([i \in 1..(Len(o.v) - 1) |-> Xy(Pt(o.v[i + 1])) \o Xy(MulQ(Big(o.v[1]), Pt(o.v[i + 1])))])
    [] o.op = "full" -> FlattenSeq([i \in 1..Len(o.bases) |-> Xy(MulQ(Big(o.v[1]), BasesTab[o.bases[i]]))])
    [] o.op = "base" -> <<Big(o.v[1])>> \o FlattenSeq([i \in 1..Len(o.bases) |-> Xy(MulQ(Big(o.v[1]), BasesTab[o.bases[i]]))])
    [] o.op = "short" -> <<Big(o.v[1]), Big(o.v[2])>> \o FlattenSeq([i \in 1..Len(o.bases) |-> Xy(SignedQ(Big(o.v[1]), Big(o.v[2]), BasesTab[o.bases[i]]))])
    [] o.op = "mux" -> <<Big(o.v[1])>> \o Xy(Pt(o.v[2])) \o Xy(Pt(o.v[3])) \o Xy(Pt(o.v[IF Big(o.v[1]) = "0" THEN 2 ELSE 3]))
(* the operations without tables, with their constraints read modulo a small prime p at which   *)
(* the curve has prime order and no point with x = 0, as over Pallas                             *)
SmallOn(j, o, z, i, p) == OnCurve(At(z, i), p) /\ (o.t[j] = "n" => At(z, i) # O)
SmallEccRel(o, z, p) ==
  CASE o.op = "pt" -> OnCurve(At(z, 1), p)
    [] o.op = "nonid" -> At(z, 1) # O /\ OnCurve(At(z, 1), p)
    [] o.op = "add" -> SmallOn(1, o, z, 1, p) /\ SmallOn(2, o, z, 3, p) /\ At(z, 5) = AddP(At(z, 1), At(z, 3), p)
    \* nothing is promised for equal points (and the equation is trivial there)
    [] o.op = "addinc" -> /\ At(z, 1) # O /\ At(z, 3) # O /\ OnCurve(At(z, 1), p) /\ OnCurve(At(z, 3), p)
                          /\ At(z, 1) = At(z, 3) \/ (z[1] # z[3] /\ At(z, 5) = AddP(At(z, 1), At(z, 3), p))
    [] o.op = "addself" -> SmallOn(1, o, z, 1, p) /\ At(z, 3) = AddP(At(z, 1), At(z, 1), p)
    [] o.op = "eq" -> SmallOn(1, o, z, 1, p) /\ SmallOn(2, o, z, 3, p) /\ At(z, 1) = At(z, 3)
    [] o.op = "x" -> SmallOn(1, o, z, 1, p) /\ z[3] = z[1]
    [] o.op = "sign" -> OnCurve(At(z, 1), p) /\ z[3] \in {"1", NegB("1", p)} /\ At(z, 4) = (IF z[3] = "1" THEN At(z, 1) ELSE NegP(At(z, 1), p))
    [] o.op = "mux" -> /\ z[1] \in {"0", "1"} /\ SmallOn(1, o, z, 2, p) /\ SmallOn(1, o, z, 4, p)
                       /\ At(z, 6) = (IF z[1] = "0" THEN At(z, 2) ELSE At(z, 4))
EccRel(o, z) ==
  CASE o.op = "pt" -> PtOk(z, 1)
    [] o.op = "nonid" -> NiOk(z, 1)
    [] o.op = "const" -> z = Xy(Pt(o.v[1]))
    [] o.op = "add" -> TypeOk(o, 1, z, 1) /\ TypeOk(o, 2, z, 3) /\ At(z, 5) = AddQ(At(z, 1), At(z, 3))
    [] o.op = "addinc" -> NiOk(z, 1) /\ NiOk(z, 3) /\ z[1] # z[3] /\ At(z, 5) = AddQ(At(z, 1), At(z, 3))
    [] o.op = "addself" -> TypeOk(o, 1, z, 1) /\ At(z, 3) = AddQ(At(z, 1), At(z, 1))
    [] o.op = "eq" -> TypeOk(o, 1, z, 1) /\ TypeOk(o, 2, z, 3) /\ At(z, 1) = At(z, 3)
    [] o.op = "x" -> TypeOk(o, 1, z, 1) /\ z[3] = z[1]
    [] o.op = "sign" -> PtOk(z, 1) /\ z[3] \in {"1", Minus1} /\ At(z, 4) = SignedQ("1", z[3], At(z, 1))
    [] o.op = "mul" -> \A i \in 1..(Len(o.v) - 1) : NiOk(z, 4 * i - 2) /\ At(z, 4 * i) = MulQ(z[1], At(z, 4 * i - 2))
    \* (the scalar is not at the interface, and every point is some multiple of the base)
    [] o.op = "full" -> \A i \in 1..Len(o.bases) : PtOk(z, 2 * i - 1)
    [] o.op = "base" -> \A i \in 1..Len(o.bases) : At(z, 2 * i) = MulQ(z[1], BasesTab[o.bases[i]])
    [] o.op = "short" -> /\ Below(z[1], 64) /\ z[2] \in {"1", Minus1}
                         /\ \A i \in 1..Len(o.bases) : At(z, 2 * i + 1) = SignedQ(z[1], z[2], BasesTab[o.bases[i]])
    [] o.op = "mux" -> /\ z[1] \in {"0", "1"} /\ TypeOk(o, 1, z, 2) /\ TypeOk(o, 1, z, 4)
                       /\ At(z, 6) = At(z, IF z[1] = "0" THEN 2 ELSE 4)
\* a point the witnessing gadget of this type takes
Takes(o, j, P) == OnCurve(P, PallasP) /\ (o.t[j] = "n" => P # O)
EccDom(o) ==
  CASE o.op = "nonid" -> Pt(o.v[1]) # O
    [] o.op \in {"pt", "const"} -> TRUE
    [] o.op = "add" -> Takes(o, 1, Pt(o.v[1])) /\ Takes(o, 2, Pt(o.v[2]))
    [] o.op = "eq" -> Takes(o, 1, Pt(o.v[1])) /\ Takes(o, 2, Pt(o.v[2])) /\ Pt(o.v[1]) = Pt(o.v[2])
    [] o.op \in {"addself", "x"} -> Takes(o, 1, Pt(o.v[1]))
    [] o.op = "addinc" -> Pt(o.v[1]) # O /\ Pt(o.v[2]) # O /\ Big(o.v[1][1]) # Big(o.v[2][1])
    [] o.op = "sign" -> Big(o.v[2]) \in {"1", Minus1}
    [] o.op = "mul" -> \A i \in 2..Len(o.v) : Pt(o.v[i]) # O
    [] o.op = "short" -> Below(Big(o.v[1]), 64) /\ Big(o.v[2]) \in {"1", Minus1}
    [] o.op = "mux" -> Big(o.v[1]) \in {"0", "1"} /\ Takes(o, 1, Pt(o.v[2])) /\ Takes(o, 1, Pt(o.v[3]))
    [] OTHER -> TRUE
EccFix(o) ==
  CASE o.op \in {"pt", "nonid", "x", "addself"} -> {1, 2}
    [] o.op \in {"const", "full"} -> {}
    [] o.op \in {"add", "addinc", "eq"} -> 1..4
    [] o.op = "sign" -> 1..3
    [] o.op = "mul" -> {1} \cup UNION {{4 * i - 2, 4 * i - 1} : i \in 1..(Len(o.v) - 1)}
    [] o.op = "base" -> {1}
    [] o.op = "short" -> {1, 2}
    [] o.op = "mux" -> 1..5

(* ------------------------------------------------------- Sinsemilla, Merkle paths *)
\* value of a message piece: given, the same as an earlier one, or put together from bit ranges
RECURSIVE SubVal(_, _, _)
SubVal(s, i, at) == IF i > Len(s) THEN "0" ELSE LET n == s[i][3] - s[i][2] IN IAdd(ShlB(LowB(ShrB(s[i][1], s[i][2]), n), at), SubVal(s, i + 1, at + n))
PieceVal(o, i) ==
  LET q == o.pieces[IF o.pieces[i].kind = "ref" THEN o.pieces[i].ref + 1 ELSE i] IN
  IF q.kind = "sub" THEN SubVal(q.sub, 1, 0) ELSE Big(q.v)
Pieces(o) == Len(o.pieces)
ZLen(o) == FoldLeft(LAMBDA a, q : a + q.n, 0, o.pieces)
PieceZs(v, n) == [j \in 1..n |-> ShrB(v, 10 * (j - 1))]
\* at the interface: the pieces, then the running sums of each piece
PzLen(o) == Pieces(o) + ZLen(o)
AllZs(o) == [i \in 1..Pieces(o) |-> PieceVal(o, i)] \o FlattenSeq([i \in 1..Pieces(o) |-> PieceZs(PieceVal(o, i), o.pieces[i].n)])
\* where the running sums of piece i start
ZStart(o, i) == FoldLeft(LAMBDA a, q : a + q.n, Pieces(o) + 1, SubSeq(o.pieces, 1, i - 1))
\* message words when the pieces have these values
MsgWords(o, vs) == TLCEval(FlattenSeq([i \in 1..Pieces(o) |-> WordsOf(vs[i], o.pieces[i].n)]))
PieceVals(o) == TLCEval([i \in 1..Pieces(o) |-> PieceVal(o, i)])
Zvals(o, z) == SubSeq(z, 1, Pieces(o))
ZsOk(o, z) ==
  \A i \in 1..Pieces(o) :
    LET f == ZStart(o, i) IN
    /\ Below(z[i], 10 * o.pieces[i].n)
    /\ \A j \in 1..o.pieces[i].n : z[f + j - 1] = ShrB(z[i], 10 * (j - 1))
    /\ o.pieces[i].kind = "ref" => z[i] = z[o.pieces[i].ref + 1]
SinsQ(o) == Pt(o.Q)
Sound(h, P) == h = Bottom \/ P = h
XOf(x) == x = "0" \/ PowB(AddB(PowB(x, "3", PallasP), 5, PallasP), ShrB(ISub(PallasP, 1), 1), PallasP) = "1"
PathBit(o, i) == BitB(o.pos, i - 1)
RECURSIVE PathFrom(_, _, _)
PathFrom(o, node, i) ==
  IF i > Len(o.sibs) THEN <<node>>
  ELSE LET s == Big(o.sibs[i])
           L == IF PathBit(o, i) = 1 THEN s ELSE node
           R == IF PathBit(o, i) = 1 THEN node ELSE s
           h == TLCEval(Crh(SinsQ(o), i - 1, L, R)) IN
       <<L, R, h>> \o PathFrom(o, h, i + 1)
SinsLen(o) ==
  CASE o.op \in {"hash", "short"} -> PzLen(o) + (IF o.op = "short" \/ o.x THEN 1 ELSE 2)
    [] o.op = "commit" -> PzLen(o) + 2
    [] o.op = "priv" -> PzLen(o) + 4
    [] o.op = "parts" -> PzLen(o) + 6
    [] o.op = "layer" -> 3
    [] o.op = "path" -> 2 + 3 * Len(o.sibs)
HonestHash(o) == SinsHash(SinsQ(o), MsgWords(o, PieceVals(o)))
SinsExp(o) ==
  LET B == BasesTab[o.b]  C == AddQ(HonestHash(o), MulQ(Big(o.r), B)) IN
  CASE o.op = "hash" -> AllZs(o) \o (IF o.x THEN <<HonestHash(o)[1]>> ELSE HonestHash(o))
    [] o.op = "priv" -> SinsQ(o) \o AllZs(o) \o HonestHash(o)
    [] o.op = "commit" -> AllZs(o) \o Xy(C)
    [] o.op = "short" -> AllZs(o) \o <<Xy(C)[1]>>
    [] o.op = "parts" -> SinsQ(o) \o AllZs(o) \o HonestHash(o) \o Xy(MulQ(Big(o.r), B))
    [] o.op = "layer" -> <<Big(o.v[1]), Big(o.v[2]), Crh(SinsQ(o), o.l, Big(o.v[1]), Big(o.v[2]))>>
    [] o.op = "path" -> <<Big(o.leaf)>> \o PathFrom(o, Big(o.leaf), 1)
SinsRel(o, z) ==
  CASE o.op = "hash" -> /\ ZsOk(o, z)
                        /\ LET h == SinsHash(SinsQ(o), MsgWords(o, Zvals(o, z))) IN
                           IF o.x THEN h = Bottom \/ z[PzLen(o) + 1] = h[1] ELSE Sound(h, SubSeq(z, PzLen(o) + 1, PzLen(o) + 2))
    [] o.op \in {"priv", "parts"} ->
         LET y == SubSeq(z, 3, 2 + PzLen(o)) IN
         /\ NiOk(z, 1) /\ ZsOk(o, y)
         /\ Sound(SinsHash(At(z, 1), MsgWords(o, Zvals(o, y))), SubSeq(z, PzLen(o) + 3, PzLen(o) + 4))
         /\ o.op = "parts" => PtOk(z, PzLen(o) + 5)
    [] o.op = "commit" -> ZsOk(o, z) /\ PtOk(z, PzLen(o) + 1)
    [] o.op = "short" -> ZsOk(o, z) /\ XOf(z[PzLen(o) + 1])
    [] o.op = "layer" -> LET h == Crhs(SinsQ(o), o.l, z[1], z[2]) IN z[3] \in h \/ "bottom" \in h
    [] o.op = "path" ->
         LET n == Len(o.sibs) IN
         /\ z[2 + 3 * n] = z[1 + 3 * n]
         /\ \A i \in 1..n :
              /\ (IF i = 1 THEN z[1] ELSE z[3 * i - 2]) \in {z[3 * i - 1], z[3 * i]}
              /\ LET h == Crhs(SinsQ(o), i - 1, z[3 * i - 1], z[3 * i]) IN z[3 * i + 1] \in h \/ "bottom" \in h
SinsDom(o) ==
  CASE o.op = "layer" -> Crh(SinsQ(o), o.l, Big(o.v[1]), Big(o.v[2])) # "bottom"
    [] o.op = "path" -> TRUE
    [] OTHER -> (\A i \in 1..Pieces(o) : Below(PieceVal(o, i), 10 * o.pieces[i].n)) /\ HonestHash(o) # Bottom
SinsFix(o) ==
  LET zs == 1..Pieces(o) IN
  CASE o.op \in {"hash", "commit", "short"} -> zs
    [] o.op \in {"priv", "parts"} -> {1, 2} \cup {2 + i : i \in zs}
    [] o.op = "layer" -> {1, 2}
    [] o.op = "path" -> {1} \cup {IF PathBit(o, i) = 1 THEN 3 * i - 1 ELSE 3 * i : i \in 1..Len(o.sibs)}

(* ------------------------------------------------------- dispatch *)
OpLen(c, o) ==
  CASE c.g = "swap" -> SwapLen(o)
    [] c.g \in {"range", "range45"} -> RangeLen(o)
    [] c.g = "sum" -> SumLen(o)
    [] c.g = "pos" -> PosLen(o, c.q)
    [] c.g \in {"ecc", "secc"} -> EccLen(o)
    [] c.g = "sins" -> SinsLen(o)
OpExp(c, o) ==
  CASE c.g = "swap" -> SwapExp(o)
    [] c.g \in {"range", "range45"} -> RangeExp(o, c.w)
    [] c.g = "sum" -> SumExp(o, c.w)
    [] c.g = "pos" -> PosExp(o, c.q)
    [] c.g = "ecc" -> EccExp(o)
    [] c.g = "sins" -> SinsExp(o)
OpRel(c, o, x) ==
  CASE c.g = "swap" -> SwapRel(o, x)
    [] c.g \in {"range", "range45"} -> RangeRel(o, c.w, x, c.p)
    [] c.g = "sum" -> SumRel(o, c.w, x, c.p)
    [] c.g = "pos" -> PosRel(o, x, c.q)
    [] c.g = "ecc" -> EccRel(o, x)
    [] c.g = "secc" -> SmallEccRel(o, x, c.p)
    [] c.g = "sins" -> SinsRel(o, x)
OpDom(c, o) ==
  CASE c.g = "swap" -> SwapDom(o)
    [] c.g \in {"range", "range45"} -> RangeDom(o, c.w)
    [] c.g = "sum" -> SumDom(o, c.w)
    [] c.g = "pos" -> o.op # "sponge" \/ Len(o.v) % c.q.rate = 0
    [] c.g = "ecc" -> EccDom(o)
    [] c.g = "sins" -> SinsDom(o)

(* every row of a recorded generator table, under whatever tag, holds a generator *)
TablesOk(c) ==
  (c.g = "sins" /\ c.flat) =>
  \A t \in 1..Len(c.sys.tabs) :
    \A r \in 1..Len(c.sys.tabs[t]) :
      LET row == {Big(c.sys.tabs[t][r][j]) : j \in 1..Len(c.sys.tabs[t][r])} IN
      Len(c.sys.tabs[t][r]) < 3 \/ \E x \in row : Below(x, 10) /\ LET g == STab[Small(x) + 1] IN {g[1], g[2]} \subseteq row

(* positions of the interface that are inputs of the operation (OpFix), and positions that *)
(* are then determined, at least up to finitely many choices (OpDet)                        *)
OpFix(c, o) ==
  CASE c.g = "swap" -> IF o.op = "swap" THEN {1} ELSE {1, 2}
    [] c.g \in {"range", "range45"} -> IF o.op \in {"copy", "witness"} /\ ~ o.strict THEN {1} ELSE {}
    [] c.g = "sum" -> IF o.strict THEN {} ELSE {1}
    [] c.g = "pos" -> 1..PosIn(o)
    [] c.g = "ecc" -> EccFix(o)
    [] c.g = "sins" -> SinsFix(o)
OpDet(c, o) ==
  CASE c.g = "swap" -> IF o.op = "swap" THEN {IF Big(o.v[3]) = "1" THEN 3 ELSE 2} ELSE {3, 4}
    [] c.g \in {"range", "range45", "sum", "pos", "ecc", "sins"} -> 1..OpLen(c, o)

InDomain(c) == \A i \in 1..Len(c.ops) : OpDom(c, c.ops[i])
Expected(c) == FlattenSeq([i \in 1..Len(c.ops) |-> OpExp(c, c.ops[i])])
RECURSIVE RelFrom(_, _, _, _)
RelFrom(c, io, i, from) ==
  IF i > Len(c.ops) THEN from = Len(io) + 1
  ELSE LET n == OpLen(c, c.ops[i]) IN
       /\ from + n - 1 <= Len(io)
       /\ OpRel(c, c.ops[i], Cut(io, from, n))
       /\ RelFrom(c, io, i + 1, from + n)
Rel(c, io) == RelFrom(c, io, 1, 1)
RECURSIVE Shifted(_, _, _, _)
Shifted(c, F(_, _), i, from) ==
  IF i > Len(c.ops) THEN {} ELSE {from + x : x \in F(c, c.ops[i])} \cup Shifted(c, F, i + 1, from + OpLen(c, c.ops[i]))
FixIdx(c) == Shifted(c, OpFix, 1, 0)
DetIdx(c) == Shifted(c, OpDet, 1, 0)
=============================================================================
