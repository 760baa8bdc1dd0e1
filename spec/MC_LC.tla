-------------------------------- MODULE MC_LC -------------------------------
(* Design check of local equivalence.  A behaviour applies local                *)
(* complementations one after the other and composes the local Cliffords they   *)
(* stand for: the composition is always a certificate from the first graph to   *)
(* the current one, and (on small graphs) certificates exist to exactly the     *)
(* graphs of the orbit.                                                         *)
EXTENDS LC, TLC
CONSTANTS N, CertN

V == 0..(N - 1)
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
Graphs == {[v \in V |-> {w \in V : {v, w} \in es}] : es \in SUBSET AllEdges}
VARIABLES first, nb, q
vars == <<first, nb, q>>
Mul(b, a) == <<(b[1] * a[1] + b[2] * a[3]) % 2, (b[1] * a[2] + b[2] * a[4]) % 2,
               (b[3] * a[1] + b[4] * a[3]) % 2, (b[3] * a[2] + b[4] * a[4]) % 2>>
Init == first \in Graphs /\ nb = first /\ q = [v \in V |-> <<1, 0, 0, 1>>]
Complement(v) == /\ nb' = LocalComp(nb, v) /\ UNCHANGED first
                 /\ q' = [w \in V |-> Mul(StepQ(nb, v)[w], q[w])]
Spec == Init /\ [][\E v \in V : Complement(v)]_vars

Certified == Certificate(first, nb, q)
Involution == \A v \in V : LocalComp(LocalComp(nb, v), v) = nb
InOrbit == nb \in Orbit(first)
Simple == \A v, w \in V : v \notin nb[v] /\ (w \in nb[v] <=> v \in nb[w])
(* Van den Nest: local Clifford equivalence is local complementation *)
CertificatesAreOrbits ==
  N <= CertN /\ nb = first /\ q = [v \in V |-> <<1, 0, 0, 1>>] =>
    \A h \in Graphs : (\E Q \in [V -> Cliffords] : Certificate(nb, h, Q)) <=> h \in Orbit(nb)
=============================================================================
