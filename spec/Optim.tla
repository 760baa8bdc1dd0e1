-------------------------------- MODULE Optim ------------------------------
(* The optimizers as state machines.  Rational hyperparameters are pairs       *)
(* <<num, den>>.  The gradients met are integer vectors.  After k gradients    *)
(* the memories are kept exactly as integers over a power of the denominators: *)
(*   gradient descent: velocity / alpha as V / q^k (q of the momentum), for    *)
(*     the step sizes in force when each gradient arrived                      *)
(*   Adam: first and second moments as M / q1^k and S / q2^k                   *)
(* An update is printed as integers; only quotients, square roots and the      *)
(* small constant are evaluated outside.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zeros(n) == [i \in 1..n |-> 0]
MulBy(r, v) == [i \in 1..Len(v) |-> r * v[i]]
Plus(v, w) == [i \in 1..Len(v) |-> v[i] + w[i]]
Square(v) == [i \in 1..Len(v) |-> v[i] * v[i]]

(* --- gradient descent ------------------------------------------------------ *)
(* memory: [k, v] the velocity is v / (D q^k), D a common denominator of all    *)
(* the step sizes used (a power of two or ten), alpha = a / D                   *)
SgdNew(n) == [k |-> 0, v |-> Zeros(n)]
SgdNext(mem, mom, a, g) ==
  [k |-> mem.k + 1,
   v |-> Plus(MulBy(mom[1], mem.v), MulBy(-a * (mom[2] ^ (mem.k + 1)), g))]
(* numerator of the step over D q^(k+1), q^(k+2) with Nesterov's momentum       *)
SgdMove(mem, mom, nesterov, a, g) ==   \* mem: the memory after the gradient
  IF nesterov THEN Plus(MulBy(mom[1], mem.v), MulBy(-a * (mom[2] ^ (mem.k + 1)), g)) ELSE mem.v
SgdDen(mem, mom, nesterov) == mom[2] ^ (IF nesterov THEN mem.k + 1 ELSE mem.k)

(* --- Adam ------------------------------------------------------------------ *)
AdamNew(n) == [k |-> 0, m |-> Zeros(n), s |-> Zeros(n)]
AdamNext(mem, b1, b2, g) ==
  [k |-> mem.k + 1,
   m |-> Plus(MulBy(b1[1], mem.m), MulBy((b1[2] - b1[1]) * (b1[2] ^ mem.k), g)),
   s |-> Plus(MulBy(b2[1], mem.s), MulBy((b2[2] - b2[1]) * (b2[2] ^ mem.k), Square(g)))]
(* the unbiased moments at iteration i (from zero): fractions                   *)
AdamHat(mem, b1, b2, i) ==
  [m |-> mem.m, md |-> b1[2] ^ mem.k, mc |-> <<b1[2] ^ (i + 1) - b1[1] ^ (i + 1), b1[2] ^ (i + 1)>>,
   s |-> mem.s, sd |-> b2[2] ^ mem.k, sc |-> <<b2[2] ^ (i + 1) - b2[1] ^ (i + 1), b2[2] ^ (i + 1)>>]

(* for a gradient that never changes they are the gradient and its square       *)
SteadyHat(g) == [m |-> g, md |-> 1, mc |-> <<1, 1>>, s |-> Square(g), sd |-> 1, sc |-> <<1, 1>>]

(* --- random coordinate descent --------------------------------------------- *)
(* only the chosen coordinate moves; adaptive steps shrink with the square root *)
(* of the iteration                                                             *)
RcdMove(g, j) == [i \in 1..Len(g) |-> IF i = j THEN -g[j] ELSE 0]

NormSq(g) == LET f[i \in 0..Len(g)] == IF i = 0 THEN 0 ELSE f[i - 1] + g[i] * g[i] IN f[Len(g)]

(* --- a whole descent on a quadratic: gradient H x + b, everything over S ----- *)
RowDot(r, x) == LET f[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE f[i - 1] + r[i] * x[i] IN f[Len(x)]
GradAt(H, b, x, S) == [i \in 1..Len(x) |-> RowDot(H[i], x) + S * b[i]]
Exactly(v, d) == IF \A i \in 1..Len(v) : v[i] % d = 0 THEN [i \in 1..Len(v) |-> v[i] \div d] ELSE Assert(FALSE, "not exact")
(* one step from point x and velocity v (both over S); alpha = 1/a              *)
QuadStep(H, b, S, mom, nesterov, a, x, v) ==
  LET g == Exactly(GradAt(H, b, x, S), a)
      v2 == Plus(Exactly(MulBy(mom[1], v), mom[2]), MulBy(-1, g))
      x2 == Plus(x, IF nesterov THEN Plus(Exactly(MulBy(mom[1], v2), mom[2]), MulBy(-1, g)) ELSE v2) IN
  [x |-> x2, v |-> v2]
=============================================================================
