--------------------------------- MODULE Lie --------------------------------
(* Generators of the Lie algebra of a circuit: for a measured node j, sets of  *)
(* non-inputs whose stabilizers multiply to an operator acting with Z or Y on j *)
(* and with X or I on every other measured node.                               *)
EXTENDS OpenGraph

GenSets(nb, I, O, j) ==
  {S \in SUBSET (DOMAIN nb \ I) : \A v \in DOMAIN nb \ O : (Cardinality(nb[v] \cap S) % 2 = 1) <=> (v = j)}
Let4(x, z) == CASE ~x /\ ~z -> "I" [] x /\ ~z -> "X" [] ~x /\ z -> "Z" [] OTHER -> "Y"
GenWord(nb, S, order) ==
  [i \in 1..Len(order) |-> Let4(order[i] \in S, Cardinality(nb[order[i]] \cap S) % 2 = 1)]
=============================================================================
