------------------------------- MODULE MC_Ment -----------------------------
(* The observables and projectors of measurements are what they should be,    *)
(* and the bras that patterns project on are their eigenvectors.               *)
EXTENDS Ment
CONSTANTS K, M
VARIABLES p, t, u
vars == <<p, t, u>>
Angles == (0..K) \X (-M..M)
Init == /\ p \in Planes
        /\ t \in IF p \in Axes THEN {<<0, 0>>} ELSE Angles
        /\ u \in IF p = "XYZ" THEN Angles ELSE {<<0, 0>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

S == Int2R(Unit(p, t, u))
Obs == Observable(p, t, u)
Hermitian == MDag(Obs) = Obs
UnitVector == MMul(Obs, Obs) = MScale(Mul(S, S), MI)
Traceless == Add(Obs[1][1], Obs[2][2]) = Zero
ProjectorsIdempotent == \A o \in {0, 1} :
  LET P == Projector(p, t, u, o) IN MMul(P, P) = MScale(Scale(2, S), P) /\ MDag(P) = P
Complementary ==
  /\ MAdd(Projector(p, t, u, 0), Projector(p, t, u, 1)) = MScale(Scale(2, S), MI)
  /\ MMul(Projector(p, t, u, 0), Projector(p, t, u, 1)) = MScale(Zero, MI)
BraTimes(b, m) == <<Add(Mul(b[1], m[1][1]), Mul(b[2], m[2][1])), Add(Mul(b[1], m[1][2]), Mul(b[2], m[2][2]))>>
BrasAreEigenvectors == \A o \in {0, 1} :
  LET b == Bra(p, t, u, o) IN
  /\ ~IsZero(b)
  /\ BraTimes(b, Obs) = [i \in 1..2 |-> Mul(IF o = 0 THEN S ELSE Neg(S), b[i])]
InPlane ==   \* an observable of plane ab has no component on the third axis
  LET x == Add(Obs[1][2], Obs[2][1])
      y == Sub(Obs[1][2], Obs[2][1])
      z == Obs[1][1] IN
  /\ p \in {"YZ", "Y", "Z"} => x = Zero
  /\ p \in {"XZ", "X", "Z"} => y = Zero
  /\ p \in {"XY", "X", "Y"} => z = Zero
=============================================================================
