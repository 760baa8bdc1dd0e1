-------------------------------- MODULE Cost --------------------------------
(* What a cost over a circuit is: the infidelity between the state a pattern  *)
(* leaves and a target, averaged over pairs of input and target.  Numbers are *)
(* x + y sqrt2 with integers x and y, written <<x, y>>.                        *)
EXTENDS Pattern

Bound(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE

Inner(u, v) == FoldLeft(LAMBDA acc, i : Add(acc, Mul(Conj(u[i]), v[i])), Zero, [i \in 1..Len(u) |-> i])

AddS(a, b) == <<a[1] + b[1], a[2] + b[2]>>
SubS(a, b) == <<a[1] - b[1], a[2] - b[2]>>
MulS(a, b) == <<a[1] * b[1] + 2 * a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
ScaleS(k, a) == <<k * a[1], k * a[2]>>

(* fidelity of two pure states, as a numerator and the two norms below it       *)
Fidelity(u, v) == [num |-> NormSq(Inner(u, v)), dens |-> <<VecNorm(u), VecNorm(v)>>]

(* fidelity of a pure state u with a mixture: ws[i] times the state vs[i] *)
MixedFidelity(u, ws, vs) ==
  [num |-> FoldLeft(LAMBDA acc, i : AddS(acc, ScaleS(ws[i], NormSq(Inner(u, vs[i])))), <<0, 0>>, [i \in 1..Len(ws) |-> i]),
   den |-> FoldLeft(LAMBDA acc, i : AddS(acc, ScaleS(ws[i], VecNorm(vs[i]))), <<0, 0>>, [i \in 1..Len(ws) |-> i]),
   norm |-> VecNorm(u)]

(* fidelity of two mixtures of the same orthogonal states with weights a_i^2 and  *)
(* b_i^2: the square of the sum of a_i b_i, as a numerator and two denominators    *)
CommutingFidelity(as, bs) ==
  LET dot(x, y) == FoldLeft(LAMBDA acc, i : acc + x[i] * y[i], 0, [i \in 1..Len(x) |-> i]) IN
  [num |-> dot(as, bs) * dot(as, bs), dens |-> <<dot(as, as), dot(bs, bs)>>]

(* --- derivatives ---------------------------------------------------------------*)
(* A probability a pattern with flow gives is a + b cos t + c sin t in each of  *)
(* its angles t, so half the difference at t + pi/2 and t - pi/2 is its slope.  *)
ShiftAt(angles, j, k) == [angles EXCEPT ![j] = <<@[1] + k, @[2]>>]

(* variance of integers: <<n sum x^2 - (sum x)^2, n^2>> *)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Variance(s) ==
  <<Len(s) * SumSeq([i \in 1..Len(s) |-> s[i] * s[i]]) - SumSeq(s) * SumSeq(s), Len(s) * Len(s)>>
=============================================================================
