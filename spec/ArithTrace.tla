----------------------------- MODULE ArithTrace -----------------------------
(* The arithmetic toolbox: every recorded result is what the mathematical      *)
(* definition gives, whatever the size and the number of threads.              *)
EXTENDS Field, Curve, FiniteSets, Json, Report
PP == 2013265921
Cases == JsonDeserialize("cases.json")
VARIABLES cid, at, bad
Case == Cases[cid]
Op == Case.ops[at]
Out == Case.out[at].ok

Add(a, b) == AddM(a, b, PP)
Sub(a, b) == SubM(a, b, PP)
Mul(a, b) == MulM(a, b, PP)
Pow(a, e) == PowM(a, e, PP)
Inv(a) == InvM(a, PP)
Eval(c, x) == EvalM(c, x, PP)
RootOf(k) == PowM(31, 15 * 2 ^ (27 - k), PP)          \* generator of the subgroup of order 2^k
\* w^r for any integer r
PowZ(w, r) == IF r >= 0 THEN Pow(w, r) ELSE Pow(Inv(w), -r)

\* ----- the evaluation domain of size n = 2^k and the coset on which quotients are computed
N == 2 ^ Op.k
QuotientDegree == Op.j - 1
RECURSIVE ExtFrom(_)
ExtFrom(e) == IF 2 ^ e >= N * QuotientDegree THEN e ELSE ExtFrom(e + 1)
ExtK == ExtFrom(Op.k)
NE == 2 ^ ExtK
Om == RootOf(Op.k)
OmE == RootOf(ExtK)
Zeta == Case.zeta
CosetPoint(i) == Mul(Zeta, Pow(OmE, i))               \* 0-based
\* the i-th (0-based) coefficient of the polynomial with the given values on the coset
CosetCoeff(a, i) == Mul(Inv(Mul(NE, Pow(Zeta, i))), Eval(a, Pow(Inv(OmE), i)))
Rotl(a, s) == LET m == Len(a) IN [i \in 1..m |-> a[1 + ((i - 1 + s) % m)]]
\* l_i at x (x outside the domain)
LagrangeAt(x, i) == LET w == PowZ(Om, i) IN Mul(Mul(Sub(Pow(x, N), 1), w), Inv(Mul(N, Sub(x, w))))

Dft(a, w, out) == Len(out) = Len(a) /\ \A i \in DOMAIN a : out[i] = Eval(a, Pow(w, i - 1))

\* the inner product of the periodic continuations of c and h, terms lo .. hi-1
RECURSIVE DotRep(_, _, _, _, _)
DotRep(c, h, lo, hi, q) ==
    IF hi <= lo THEN "0"
    ELSE IF hi = lo + 1 THEN MulB(c[1 + (lo % Len(c))], h[1 + (lo % Len(h))], q)
    ELSE LET mid == (lo + hi) \div 2 IN AddB(DotRep(c, h, lo, mid, q), DotRep(c, h, mid, hi, q), q)

Holds ==
    CASE Op.op \in {"fft", "fftg"} -> Dft(Op.a, Op.w, Out)
      [] Op.op = "msm" -> LET e == DotM(Op.c, Op.m, PP) IN Out = <<e, e>>
      [] Op.op \in {"pallas", "vesta"} ->
            LET p == IF Op.op = "pallas" THEN PallasP ELSE VestaP
                e == TLCEval(MsmP(Op.c, Out[1], p))
            IN /\ \A i \in DOMAIN Out[1] : OnCurve(Out[1][i], p)
               /\ Out[2] = e /\ Out[3] = e
      [] Op.op \in {"pallasbig", "vestabig"} ->
            LET p == IF Op.op = "pallasbig" THEN PallasP ELSE VestaP
                q == IF Op.op = "pallasbig" THEN VestaP ELSE PallasP
                s == DotRep(Op.c, Op.h, 0, Op.n, q)
            IN Out[2] = MulP(s, Out[1], p)
      [] Op.op = "eval" -> Out = Eval(Op.a, Op.x)
      [] Op.op = "inner" -> Out = DotM(Op.a, Op.b, PP)
      [] Op.op = "kate" ->              \* a = q (X - x) + remainder
            LET m == Len(Op.a)
                q(i) == IF i >= m THEN 0 ELSE Out[i]
            IN Len(Out) = m - 1 /\ \A i \in 2..m : Op.a[i] = Sub(q(i - 1), Mul(Op.x, q(i)))
      [] Op.op = "interp" ->
            Len(Out) = Len(Op.x) /\ \A i \in DOMAIN Op.x : Eval(Out, Op.x[i]) = Op.y[i]
      [] Op.op = "par" -> Out = [i \in 1..Op.n |-> i]
      [] Op.op = "dom" ->
            /\ Out[1] = Om /\ Out[2] = Inv(Om) /\ Out[3] = OmE /\ Out[4] = NE /\ Out[5] = QuotientDegree
            /\ Out[6] = [i \in DOMAIN Op.r |-> Mul(Op.x, PowZ(Om, Op.r[i]))]
            /\ Pow(Op.x, N) # 1 => Out[7] = [i \in DOMAIN Op.r |-> LagrangeAt(Op.x, Op.r[i])]
            /\ Out[8] = Zeta /\ Pow(Zeta, 3) = 1 /\ Zeta # 1
            /\ Out[9] = [i \in 1..N |-> Op.x] /\ Out[10] = [i \in 1..NE |-> Op.x]
            /\ Out[11] = N /\ Out[12] = N /\ Out[13] = [i \in 1..NE |-> 0] /\ Out[14] = N
      [] Op.op = "l2c" -> Len(Out) = N /\ \A i \in 1..N : Eval(Out, Pow(Om, i - 1)) = Op.a[i]
      [] Op.op = "c2e" -> Len(Out) = NE /\ \A i \in 1..NE : Out[i] = Eval(Op.a, CosetPoint(i - 1))
      [] Op.op = "e2c" ->
            /\ Len(Out) = N * QuotientDegree
            /\ \A i \in DOMAIN Out : Out[i] = CosetCoeff(Op.a, i - 1)
            /\ Len(Out) = NE => \A i \in 1..NE : Eval(Out, CosetPoint(i - 1)) = Op.a[i]
      [] Op.op = "rote" -> Out = Rotl(Op.a, (((Op.r * (NE \div N)) % NE) + NE) % NE)
      [] Op.op = "van" -> Len(Out) = NE /\ \A i \in 1..NE : Mul(Out[i], Sub(Pow(CosetPoint(i - 1), N), 1)) = Op.a[i]
      [] Op.op = "rotl" -> Out = Rotl(Op.a, ((Op.r % N) + N) % N)
      [] Op.op = "lin" -> Out = [i \in 1..N |-> Add(Mul(Op.a[i], Op.x), Op.b[i])]

Why(w) == Reject(Case.id, ToString(Case.threads) \o " threads: " \o w) /\ bad' = TRUE
Init == cid \in DOMAIN Cases /\ at = 1 /\ bad = FALSE
Next ==
    \/ /\ ~bad /\ at <= Len(Case.ops)
       /\ IF "panic" \in DOMAIN Case.out[at] THEN Why(Op.op \o ": " \o Case.out[at].panic)
          ELSE IF Holds THEN UNCHANGED bad
          ELSE Why(Op.op \o " (operation " \o ToString(at) \o ") is not what its definition gives")
       /\ at' = at + 1 /\ UNCHANGED cid
    \/ /\ ~bad /\ at = Len(Case.ops) + 1 /\ Done(Case.id) /\ at' = at + 1 /\ UNCHANGED <<cid, bad>>
=============================================================================
