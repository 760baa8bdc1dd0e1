-------------------------------- MODULE Ring --------------------------------
(* The ring Z[w], w = exp(i pi/4), as integer 4-tuples (1, w, w^2 = i, w^3).   *)
(* Everything a pattern with angles k pi/4 + m atan(4/3) prescribes lies in it *)
(* up to a positive factor, so states are compared exactly.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>
Im == <<0, 0, 1, 0>>
Int2R(x) == <<x, 0, 0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
Neg(a) == <<-a[1], -a[2], -a[3], -a[4]>>
Sub(a, b) == Add(a, Neg(b))
Scale(x, a) == <<x * a[1], x * a[2], x * a[3], x * a[4]>>
Mul(a, b) ==
  <<a[1]*b[1] - a[2]*b[4] - a[3]*b[3] - a[4]*b[2],
    a[1]*b[2] + a[2]*b[1] - a[3]*b[4] - a[4]*b[3],
    a[1]*b[3] + a[2]*b[2] + a[3]*b[1] - a[4]*b[4],
    a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1]>>
Conj(a) == <<a[1], -a[4], -a[3], -a[2]>>

RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN One ELSE Mul(a, Power(a, k - 1))

(* |a|^2 = x + y sqrt2, as <<x, y>> *)
NormSq(a) ==
  LET p == Mul(a, Conj(a)) IN <<p[1], p[2]>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x

(* --- angles: <<k, m>> is k pi/4 + m atan(4/3) ------------------------------ *)
Three4 == <<3, 0, 4, 0>>
AngleD(t) == 5 ^ Abs(t[2])
(* AngleD(t) exp(i angle) *)
AngleE(t) ==
  Mul(Power(<<0, 1, 0, 0>>, t[1] % 8),
      IF t[2] >= 0 THEN Power(Three4, t[2]) ELSE Power(Conj(Three4), -t[2]))
(* 2 AngleD cos and 2 AngleD sin *)
Cos2(t) == LET e == AngleE(t) IN Add(e, Conj(e))
Sin2(t) == LET e == AngleE(t) IN Neg(Mul(Im, Sub(e, Conj(e))))

(* --- vectors ---------------------------------------------------------------- *)
RECURSIVE GcdAll(_, _, _)
GcdAll(v, i, g) ==
  IF i > Len(v) \/ g = 1 THEN g
  ELSE GcdAll(v, i + 1, Gcd(Gcd(Gcd(Gcd(g, Abs(v[i][1])), Abs(v[i][2])), Abs(v[i][3])), Abs(v[i][4])))
Reduced(v) ==
  LET g == GcdAll(v, 1, 0) IN
  IF g <= 1 THEN v
  ELSE TLCEval([i \in 1..Len(v) |-> <<v[i][1] \div g, v[i][2] \div g, v[i][3] \div g, v[i][4] \div g>>])
IsZero(v) == \A i \in 1..Len(v) : v[i] = Zero

RECURSIVE SumNorm(_, _)
SumNorm(v, i) ==
  IF i > Len(v) THEN <<0, 0>>
  ELSE LET n == NormSq(v[i]) r == SumNorm(v, i + 1) IN <<n[1] + r[1], n[2] + r[2]>>
VecNorm(v) == SumNorm(v, 1)

(* same ray *)
Parallel(v, w) ==
  /\ Len(v) = Len(w)
  /\ \A i, j \in 1..Len(v) : i < j => Mul(v[i], w[j]) = Mul(v[j], w[i])

Kron(v, w) ==
  TLCEval([i \in 1..(Len(v) * Len(w)) |->
             Mul(v[((i - 1) \div Len(w)) + 1], w[((i - 1) % Len(w)) + 1])])
=============================================================================
