------------------------------- MODULE Color -------------------------------
(* sRGB <-> CIE XYZ <-> CIE L*a*b* (D65) in fixed point: linear light, XYZ    *)
(* and the cube-root function in units of 1e-7, L*a*b* in units of 1e-5.      *)
(* Powers and roots are computed here from their definition, by bisection.    *)
EXTENDS Integers, Sequences

ONE == 10000000
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Clamp(v, lo, hi) == Max2(lo, Min2(v, hi))
AbsV(v) == IF v < 0 THEN -v ELSE v

(* a * b / ONE for 0 <= a, b < 45 * ONE, without leaving 32 bits *)
Mul(a, b) ==
  LET ah == a \div 10000 al == a % 10000 bh == b \div 10000 bl == b % 10000
  IN ah * bh * 10 + (ah * bl + al * bh + (al * bl) \div 10000) \div 1000
(* v * m / 10^6 for a coefficient m in units of 1e-6, v >= 0 *)
Coef(m, v) ==
  LET n == AbsV(m) vh == v \div 1000 vl == v % 1000 nh == n \div 1000 nl == n % 1000
      p == vh * nh + (vl * nh + vh * nl + (vl * nl) \div 1000) \div 1000
  IN IF m < 0 THEN -p ELSE p

Square(z) == Mul(z, z)
Pow3(z) == Mul(z, Square(z))
Pow5(z) == Mul(z, Square(Square(z)))
RECURSIVE Root3(_, _, _), Root5(_, _, _)
(* the largest z in lo..hi with z^3 <= v *)
Root3(v, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF Pow3(m) <= v THEN Root3(v, m, hi) ELSE Root3(v, lo, m - 1)
Root5(v, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF Pow5(m) <= v THEN Root5(v, m, hi) ELSE Root5(v, lo, m - 1)
CubeRoot(v) == Root3(v, 0, 3 * ONE)

(* ------------------------------ sRGB transfer ---------------------------- *)
CONSTANT LinearLimit   \* where the linear part of the decoding ends (404500)

(* x^2.4 = x^2 * (x^2)^(1/5) for 0 <= x <= 1 *)
Pow24(x) == Mul(Square(x), Root5(Square(x), 0, ONE))
(* linear light of the encoded value n / 510 (half steps of a channel) *)
DecodeHalf(n) ==
  LET x == (n * 1000000) \div 51
  IN IF x <= LinearLimit THEN (x * 25) \div 323
     ELSE Pow24(((x + 550000) * 200) \div 211)
Half == [n \in 0..510 |-> DecodeHalf(n)]
Decode(k) == Half[2 * k]
(* Channel k is the correctly rounded encoding of every light in              *)
(* Half[2k-1] .. Half[2k+1]; light outside of 0..ONE is limited.              *)
Low(k)  == IF k = 0 THEN -2000000000 ELSE Half[2 * k - 1]
High(k) == IF k = 255 THEN 2000000000 ELSE Half[2 * k + 1]
Encodes(light, k, tol) == k \in 0..255 /\ Low(k) - tol <= light /\ light <= High(k) + tol
Encode(light) == CHOOSE k \in 0..255 : Low(k) <= light /\ (light < High(k) \/ k = 255)

(* ------------------------------- matrices -------------------------------- *)
ToXyz == << <<412391, 357584, 180481>>, <<212639, 715169, 72192>>, <<19331, 119195, 950532>> >>
ToRgb == << <<3240970, -1537383, -498611>>, <<-969244, 1875968, 41555>>, <<55630, -203977, 1056972>> >>
Apply(m, v) == [i \in 1..3 |-> Coef(m[i][1], v[1]) + Coef(m[i][2], v[2]) + Coef(m[i][3], v[3])]
XyzMax == <<9504560, ONE, 10886440>>
ClampXyz(v) == [i \in 1..3 |-> Clamp(v[i], 0, XyzMax[i])]
White == <<950460, 1000000, 1089060>>          \* D65
WhiteInverse == <<1052122, 1000000, 918223>>   \* 1 / White

LightOf(rgb) == <<Decode(rgb[1]), Decode(rgb[2]), Decode(rgb[3])>>
XyzOf(light) == ClampXyz(Apply(ToXyz, light))

(* ------------------------------- L*a*b* ---------------------------------- *)
Eps == 88565          \* (6/29)^3
CbrtEps == 2068966    \* 6/29
Forward(t) == IF t > Eps THEN CubeRoot(t) ELSE Coef(7787037, t) + 1379310
Inverse(f) == IF f > CbrtEps THEN Pow3(f) ELSE IF f < 1379310 THEN 0 ELSE Coef(128419, f - 1379310)

LabOf(xyz) ==
  LET f == [i \in 1..3 |-> Forward(Coef(WhiteInverse[i], xyz[i]))]
  IN <<Clamp((116 * f[2] - 16 * ONE) \div 100, 0, 10000000),
       Clamp(5 * (f[1] - f[2]), -12800000, 12700000),
       Clamp(2 * (f[2] - f[3]), -12800000, 12700000)>>
XyzOfLab(lab) ==
  LET fy == ((lab[1] + 1600000) * 100) \div 116
      f == <<Max2(0, fy + lab[2] \div 5), fy, Max2(0, fy - lab[3] \div 2)>>
  IN ClampXyz([i \in 1..3 |-> Coef(White[i], Inverse(f[i]))])
LightOfXyz(xyz) == Apply(ToRgb, xyz)
RgbOfLight(light) == [i \in 1..3 |-> Encode(light[i])]
(* rgb is the rounded colour of the L*a*b* value, up to tol in linear light *)
Shows(lab, rgb, tol) ==
  \E light \in {LightOfXyz(XyzOfLab(lab))} : \A i \in 1..3 : Encodes(light[i], rgb[i], tol)
=============================================================================
