------------------------------ MODULE EccTables ------------------------------
(* The tables of fixed-base multiplication: the eight points of every window, *)
(* the coefficients that interpolate their x-coordinates, and the values z, u *)
(* with z + y = u^2 while z - y is not a square.                              *)
EXTENDS Integers, Sequences, Curve, SequencesExt, Report, Json
Cases == JsonDeserialize("cases.json")
VARIABLES cid, st
C == Cases[cid]
P == PallasP
B == <<Big(C.base[1]), Big(C.base[2])>>
Pow(n) == ShlB("1", n)
RECURSIVE Offset(_)
Offset(n) == IF n = 0 THEN "0" ELSE IAdd(Offset(n - 1), Pow(3 * (n - 1) + 1))
\* point k of window w out of C.n
Point(w, k) ==
  IF w < C.n - 1 THEN MulP(IMul(k + 2, Pow(3 * w)), B, P)
  ELSE SubP(MulP(IMul(k, Pow(3 * w)), B, P), MulP(Offset(C.n - 1), B, P), P)
Square(x) == x = "0" \/ PowB(x, ShrB(SubB(0, 1, P), 1), P) = "1"
WindowBad(i) ==
  LET w == C.from + i - 1
      Bad(k) ==
        LET pt == Point(w, k)
            z == Big(C.zu[i][1])  us == C.zu[i][2] IN
        IF <<C.points[i][k + 1][1], C.points[i][k + 1][2]>> # pt THEN "point"
        ELSE IF EvalB(C.coeffs[i], k, P) # pt[1] THEN "interpolation"
        ELSE IF MulB(us[k + 1], us[k + 1], P) # AddB(z, pt[2], P) THEN "u"
        ELSE IF Square(SubB(z, pt[2], P)) THEN "z"
        ELSE ""
  IN {<<k, Bad(k)>> : k \in {j \in 0..7 : Bad(j) # ""}}
Init == cid \in 1..Len(Cases) /\ st = 0
Next ==
  /\ st < Len(C.coeffs) /\ st' = st + 1 /\ UNCHANGED cid
  /\ IF Len(C.zu) = Len(C.coeffs) /\ Len(C.coeffs[st + 1]) = 8 /\ WindowBad(st + 1) = {} /\ C.nw = <<85, 22>> THEN TRUE
     ELSE Reject(C.id, ToString(C.from + st) \o ": window of base " \o ToString(C.b) \o ": " \o ToString(WindowBad(st + 1)))
  /\ IF st + 1 = Len(C.coeffs) THEN Done(C.id) ELSE TRUE
=============================================================================
