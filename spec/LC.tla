---------------------------------- MODULE LC --------------------------------
(* Local complementation, its orbits, and local Clifford certificates.  A      *)
(* certificate gives each qubit a 2x2 binary matrix <<a, b, c, d>> acting on    *)
(* (z, x): z' = a z + b x, x' = c z + d x.                                     *)
EXTENDS OpenGraph

LocalComp(nb, v) ==
  [w \in DOMAIN nb |-> IF w \in nb[v] THEN (nb[w] \ (nb[v] \ {w})) \cup ((nb[v] \ {w}) \ nb[w]) ELSE nb[w]]

RECURSIVE Grow(_, _)
Grow(seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET new == {LocalComp(g, v) : g \in frontier, v \in DOMAIN (CHOOSE g \in frontier : TRUE)} \ seen IN
       Grow(seen \cup new, new)
Orbit(nb) == Grow({nb}, {nb})

RECURSIVE Apply(_, _)
Apply(nb, vs) == IF vs = <<>> THEN nb ELSE Apply(LocalComp(nb, vs[1]), Tail(vs))

(* rows of the stabilizer group: z part and x part as functions of the node *)
GenZ(nb, u) == [v \in DOMAIN nb |-> IF v \in nb[u] THEN 1 ELSE 0]
GenX(nb, u) == [v \in DOMAIN nb |-> IF v = u THEN 1 ELSE 0]
Odd2(S) == Cardinality(S) % 2
Certificate(G, H, Q) ==
  LET V == DOMAIN G
      image(u) == LET z == GenZ(G, u)
                      x == GenX(G, u) IN
                  [v \in V |-> <<(Q[v][1] * z[v] + Q[v][2] * x[v]) % 2, (Q[v][3] * z[v] + Q[v][4] * x[v]) % 2>>]
      (* an operator is in the group of H when it commutes with its generators *)
      commutes(r, w) == Odd2({v \in V : (r[v][1] * GenX(H, w)[v] + r[v][2] * GenZ(H, w)[v]) % 2 = 1}) = 0 IN
  /\ \A v \in V : (Q[v][1] * Q[v][4] + Q[v][2] * Q[v][3]) % 2 = 1
  /\ \A u, w \in V : commutes(image(u), w)
(* what one local complementation does to the qubits *)
StepQ(nb, v) == [w \in DOMAIN nb |-> IF w = v THEN <<1, 0, 1, 1>> ELSE IF w \in nb[v] THEN <<1, 1, 0, 1>> ELSE <<1, 0, 0, 1>>]
Cliffords == {q \in [1..4 -> {0, 1}] : (q[1] * q[4] + q[2] * q[3]) % 2 = 1}
=============================================================================
