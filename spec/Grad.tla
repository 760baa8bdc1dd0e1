-------------------------------- MODULE Grad -------------------------------
(* Functions and their exact derivatives.                                      *)
(* A trigonometric polynomial is a sequence of terms [c |-> integer,           *)
(* fs |-> sequence of "1", "c", "s"], the product of c with 1, cos x_i or      *)
(* sin x_i for every parameter.  Values are in Z[w], scaled by                 *)
(* Scale(x) = product of 2 AngleD(x_i) at a point x of angles.                 *)
(* A quadratic polynomial is [a, b (sequence), q (matrix)]:                    *)
(* a + sum b_i x_i + sum q_ij x_i x_j.                                         *)
EXTENDS Ring

FactorAt(f, t) == CASE f = "1" -> Int2R(2 * AngleD(t)) [] f = "c" -> Cos2(t) [] f = "s" -> Sin2(t)
RECURSIVE ProdAt(_, _, _)
ProdAt(fs, x, i) == IF i > Len(fs) THEN One ELSE Mul(FactorAt(fs[i], x[i]), ProdAt(fs, x, i + 1))
RECURSIVE ValueAt(_, _, _)
ValueAt(p, x, i) == IF i > Len(p) THEN Zero ELSE Add(Scale(p[i].c, ProdAt(p[i].fs, x, 1)), ValueAt(p, x, i + 1))
Value(p, x) == ValueAt(p, x, 1)
RECURSIVE ScaleFrom(_, _)
ScaleFrom(x, i) == IF i > Len(x) THEN 1 ELSE 2 * AngleD(x[i]) * ScaleFrom(x, i + 1)
ScaleAt(x) == ScaleFrom(x, 1)

(* derivative with respect to parameter i *)
DTerm(t, i) ==
  CASE t.fs[i] = "1" -> [t EXCEPT !.c = 0]
    [] t.fs[i] = "c" -> [t EXCEPT !.c = -@, !.fs[i] = "s"]
    [] t.fs[i] = "s" -> [t EXCEPT !.fs[i] = "c"]
D(p, i) == [k \in 1..Len(p) |-> DTerm(p[k], i)]
Gradient(p, x) == [i \in 1..Len(x) |-> Value(D(p, i), x)]
Hessian(p, x) == [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> Value(D(D(p, i), j), x)]]

Shifted(x, i, s) == [x EXCEPT ![i] = <<@[1] + s[1], @[2] + s[2]>>]
Minus(s) == <<-s[1], -s[2]>>

(* quadratic polynomials at integer points *)
RECURSIVE Dot(_, _, _)
Dot(b, x, i) == IF i > Len(x) THEN 0 ELSE b[i] * x[i] + Dot(b, x, i + 1)
QValue(f, x) == f.a + Dot(f.b, x, 1) + Dot([i \in 1..Len(x) |-> Dot(f.q[i], x, 1)], x, 1)
QGradient(f, x) == [i \in 1..Len(x) |-> f.b[i] + Dot([j \in 1..Len(x) |-> f.q[i][j] + f.q[j][i]], x, 1)]
QHessian(f) == [i \in 1..Len(f.b) |-> [j \in 1..Len(f.b) |-> f.q[i][j] + f.q[j][i]]]
Affine(f) == \A i, j \in 1..Len(f.b) : f.q[i][j] = 0
Move(x, i, h) == [x EXCEPT ![i] = @ + h]
=============================================================================
