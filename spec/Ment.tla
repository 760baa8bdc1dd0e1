-------------------------------- MODULE Ment -------------------------------
(* Measurements: a plane, and a fixed angle or none.  Measurement records are *)
(*   [p |-> plane, free |-> no angle, t |-> angle, u |-> azimuth (XYZ only),  *)
(*    node |-> where it is placed]                                            *)
(* with angles as in Ring.  The observable is a unit vector of the plane; here *)
(* it is scaled by the positive integer Unit.                                  *)
EXTENDS Pattern

Axes == {"X", "Y", "Z"}
Planes == {"XY", "XZ", "YZ", "XYZ"} \cup Axes

(* 2 x 2 matrices *)
MX == <<<<Zero, One>>, <<One, Zero>>>>
MY == <<<<Zero, Neg(Im)>>, <<Im, Zero>>>>
MZ == <<<<One, Zero>>, <<Zero, Neg(One)>>>>
MI == <<<<One, Zero>>, <<Zero, One>>>>
MAdd(a, b) == [i \in 1..2 |-> [j \in 1..2 |-> Add(a[i][j], b[i][j])]]
MScale(r, a) == [i \in 1..2 |-> [j \in 1..2 |-> Mul(r, a[i][j])]]
MMul(a, b) == [i \in 1..2 |-> [j \in 1..2 |-> Add(Mul(a[i][1], b[1][j]), Mul(a[i][2], b[2][j]))]]
MDag(a) == [i \in 1..2 |-> [j \in 1..2 |-> Conj(a[j][i])]]

Unit(p, t, u) ==
  CASE p \in Axes -> 1
    [] p = "XYZ" -> 4 * AngleD(t) * AngleD(u)
    [] OTHER -> 2 * AngleD(t)

Observable(p, t, u) ==
  CASE p = "X" -> MX
    [] p = "Y" -> MY
    [] p = "Z" -> MZ
    [] p = "XY" -> MAdd(MScale(Cos2(t), MX), MScale(Sin2(t), MY))
    [] p = "XZ" -> MAdd(MScale(Cos2(t), MX), MScale(Sin2(t), MZ))
    [] p = "YZ" -> MAdd(MScale(Cos2(t), MY), MScale(Sin2(t), MZ))
    [] p = "XYZ" ->
         MAdd(MScale(Mul(Cos2(u), Cos2(t)), MX),
              MAdd(MScale(Mul(Sin2(u), Cos2(t)), MY),
                   MScale(Scale(2 * AngleD(u), Sin2(t)), MZ)))

(* the projector of outcome o, scaled by 2 Unit *)
Projector(p, t, u, o) ==
  MAdd(MScale(Int2R(Unit(p, t, u)), MI),
       IF o = 0 THEN Observable(p, t, u) ELSE MScale(Int2R(-1), Observable(p, t, u)))

(* what a constructor call builds: plane and angles as given *)
Accepts(p, given, t, u) ==
  /\ p \in Planes
  /\ (p \in Axes /\ given) => t = <<0, 0>>
Make(p, given, t, u) ==
  [p |-> p,
   free |-> ~given /\ p \notin Axes,
   t |-> IF p \in Axes \/ ~given THEN <<0, 0>> ELSE t,
   u |-> IF p = "XYZ" /\ given THEN u ELSE <<0, 0>>,
   node |-> -1]

Trainable(m) == m.free
(* the angle a measurement is made with when angle t, u is given or not *)
Usable(m, given, t, u) ==
  IF m.free THEN given ELSE given => (t = m.t /\ u = m.u)
Used(m, given, t, u) == IF m.free THEN [m EXCEPT !.t = t, !.u = u, !.free = FALSE] ELSE m
=============================================================================
