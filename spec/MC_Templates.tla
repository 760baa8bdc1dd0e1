---------------------------- MODULE MC_Templates ---------------------------
(* The counts that follow from the sizes, and the flows of the templates.      *)
EXTENDS Templates
CONSTANTS MaxN, MaxW, MaxL, MaxQ, MaxS
VARIABLE x
Init ==
  x \in {<<"linear", n>> : n \in 2..MaxN}
        \cup {<<"wires", a, b, c>> : a, b, c \in 2..4}
        \cup {<<"grid", n, m, p>> : n \in 1..MaxN, m \in 2..MaxN, p \in BOOLEAN}
        \cup {<<"muta", w, l, o>> : w \in 1..MaxW, l \in 1..MaxL, o \in BOOLEAN}
        \cup {<<"spt", q, l, p>> : q \in 4..MaxQ, l \in 0..MaxS, p \in BOOLEAN}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Circ == CASE x[1] = "linear" -> Linear(x[2], XYm, <<>>)
          [] x[1] = "wires" -> Wires(<<x[2], x[3], x[4]>>, XYm, <<>>)
          [] x[1] = "grid" -> Grid(x[2], x[3], x[4], XYm, <<>>)
          [] x[1] = "muta" -> Muta(x[2], x[3], x[4])
          [] x[1] = "spt" -> SPTurb(x[2], x[3], x[4])
NN == Cardinality(Nd(Circ))
NE == Cardinality(EdgeSet(Circ.nb))
NT == Cardinality(Trainable(Circ))
Counts ==
  CASE x[1] = "linear" -> NN = x[2] /\ NE = x[2] - 1 /\ NT = x[2] - 1
    [] x[1] = "wires" -> LET s == x[2] + x[3] + x[4] IN NN = s /\ NE = s - 3 /\ NT = s - 3
    [] x[1] = "grid" -> LET n == x[2] m == x[3] IN
          NN = n * m /\ NT = n * (m - 1)
          /\ NE = n * (m - 1) + (IF x[4] /\ n > 2 THEN n ELSE n - 1) * m
    [] x[1] = "muta" -> LET w == x[2] cols == x[3] * (IF x[4] THEN 1 ELSE x[2]) IN
          NN = w * (4 * cols + 1) /\ NT = 4 * w * cols /\ NE = cols * (4 * w + 2 * (w - 1))
    [] x[1] = "spt" -> LET q == x[2] l == x[3] b == IF x[4] THEN q ELSE q - 2 IN
          NT = (IF l = 0 THEN 1 ELSE l) * q + 2 * b * l
          /\ NN = q + 2 * q * (IF l = 0 THEN 1 ELSE l) + 20 * b * l
Flows == x[1] # "spt" => FlowExists(Circ, FlowOf(Circ))
Ends2 == Len(Circ.I) = Len(Circ.O) /\ Trainable(Circ) \cap ToSet(Circ.O) = {}
=============================================================================
