------------------------------ MODULE MC_Grad ------------------------------
(* The rules are exact on their classes of functions: the parameter shift rule *)
(* for every shift, central differences on quadratics, the others on affine    *)
(* functions, and all their Hessians on quadratics.                            *)
EXTENDS Grad
CONSTANTS K, Points
VARIABLES kind, p, x, s
vars == <<kind, p, x, s>>
Factors == {"1", "c", "s"}
Coefs == {-1, 2}
Init ==
  /\ x = <<>> /\ s = <<>>
  /\ \/ kind = "trig" /\ \E a, b \in [1..2 -> Factors], c \in Coefs : p = <<[c |-> 1, fs |-> a], [c |-> c, fs |-> b]>>
     \/ kind = "quad" /\ \E a \in {0, 1}, b \in [1..2 -> {-1, 0, 2}], q \in [1..2 -> [1..2 -> {-1, 0, 1}]] :
                            p = [a |-> a, b |-> b, q |-> q]
Next ==
  /\ x = <<>>
  /\ \/ /\ kind = "trig"
        /\ x' \in [1..2 -> {<<k, 0>> : k \in Points} \cup {<<1, 1>>}]
        /\ s' \in {<<k, 0>> : k \in 1..K} \cup {<<0, 1>>, <<1, -1>>}
     \/ /\ kind = "quad"
        /\ x' \in [1..2 -> {-1, 0, 3}]
        /\ s' \in {1, 2}
  /\ UNCHANGED <<kind, p>>
Spec == Init /\ [][Next]_vars
V(y) == Value(p, y)
(* value at a point, brought to a common denominator *)
Common == 4 * (25 ^ 4)
C(y) == Scale(Common \div ScaleAt(y), V(y))
ShiftRule == kind = "trig" /\ x # <<>> =>
  \A i \in 1..2 :
    \* (f(x+s) - f(x-s)) = 2 sin(s) f'(x)
    Scale(AngleD(s), Sub(C(Shifted(x, i, s)), C(Shifted(x, i, Minus(s)))))
      = Mul(Sin2(s), Scale(Common \div ScaleAt(x), Value(D(p, i), x)))
ShiftHessian == kind = "trig" /\ x # <<>> =>
  \A i, j \in 1..2 :
    LET up(y, m) == Shifted(y, j, m)
        a == C(up(Shifted(x, i, s), s))
        b == C(up(Shifted(x, i, s), Minus(s)))
        c == C(up(Shifted(x, i, Minus(s)), s))
        d == C(up(Shifted(x, i, Minus(s)), Minus(s))) IN
    Scale(AngleD(s) * AngleD(s), Add(Sub(Sub(a, b), c), d))
      = Mul(Mul(Sin2(s), Sin2(s)), Scale(Common \div ScaleAt(x), Value(D(D(p, i), j), x)))
Symmetric == kind = "trig" /\ x # <<>> => \A i, j \in 1..2 : Hessian(p, x)[i][j] = Hessian(p, x)[j][i]
Q(y) == QValue(p, y)
Central == kind = "quad" /\ x # <<>> => \A i \in 1..2 : Q(Move(x, i, s)) - Q(Move(x, i, -s)) = 2 * s * QGradient(p, x)[i]
OneSided == kind = "quad" /\ Affine(p) /\ x # <<>> => \A i \in 1..2 :
  /\ Q(Move(x, i, s)) - Q(x) = s * QGradient(p, x)[i]
  /\ Q(x) - Q(Move(x, i, -s)) = s * QGradient(p, x)[i]
Hessians == kind = "quad" /\ x # <<>> => \A i, j \in 1..2 :
  LET h == QHessian(p)[i][j]
      f(a, b) == Q(Move(Move(x, i, a), j, b)) IN
  /\ f(s, s) - f(s, -s) - f(-s, s) + f(-s, -s) = 4 * s * s * h
  /\ f(s, s) - f(s, 0) - f(0, s) + Q(x) = s * s * h
  /\ f(-s, -s) - f(-s, 0) - f(0, -s) + Q(x) = s * s * h
=============================================================================
