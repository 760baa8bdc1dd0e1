------------------------------- MODULE Circuit ------------------------------
(* The MBQC circuit object as a state machine.  A circuit is an open graph    *)
(* with a measurement (or none) on each node; everything else it exposes is   *)
(* derived.  Edits are functions from circuits to circuits; a rejected edit   *)
(* is a step that changes nothing.                                            *)
EXTENDS OpenGraph, TLC

NoAngle == 99999

(* measurements: plain [k |-> "m"], controlled [k |-> "c"] with the plain one  *)
(* as false branch, or none; a control reads the outcomes of the nodes in cond *)
(* and takes the true branch when those that are one are a set in tru          *)
NoMent == [k |-> "none", p |-> "", a |-> NoAngle, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}]
AnglePlanes == {"XY", "XZ", "YZ", "XYZ"}
Branch(p, a) == a = NoAngle /\ p \in AnglePlanes
IsTrainable(m) ==
  CASE m.k = "none" -> FALSE
    [] m.k = "m" -> Branch(m.p, m.a)
    [] m.k = "c" -> Branch(m.p, m.a) \/ Branch(m.tp, m.ta)

(* a circuit: neighbours, inputs and outputs (sequences), measurements, default *)
Nd(c) == DOMAIN c.nb
OutC(c) == Nd(c) \ ToSet(c.O)

Fill(c, given) ==
  [v \in Nd(c) |-> IF v \in DOMAIN given THEN given[v]
                   ELSE IF v \in OutC(c) THEN c.dflt ELSE NoMent]

NewCircuit(nb, I, O, dflt, given) ==
  LET c == [nb |-> nb, I |-> I, O |-> O, dflt |-> dflt, m |-> <<>>] IN
  [c EXCEPT !.m = Fill(c, given)]

(* --- derived attributes --------------------------------------------------- *)
Trainable(c) == {v \in Nd(c) : IsTrainable(c.m[v])}
Controlled(c) == {v \in Nd(c) : c.m[v].k = "c"}
QuantumOut(c) == SelectSeq(c.O, LAMBDA v : c.m[v].k = "none")
ClassicalOut(c) == SelectSeq(c.O, LAMBDA v : c.m[v].k # "none")
PlaneOf(c, v) == IF c.m[v].k = "none" THEN "" ELSE c.m[v].p

FlowOf(c) == FlowLayers(c.nb, ToSet(c.I), ToSet(c.O))
FlowExists(c, ly) == DOMAIN ly = Nd(c)
FlowOrder(c, ly) == {e \in Nd(c) \X Nd(c) : ly[e[1]] > ly[e[2]]}
ControlPairs(c) == UNION {{<<w, v>> : w \in c.m[v].cond} : v \in Controlled(c)}

RECURSIVE Closure(_, _)
Closure(V, rel) ==
  LET more == rel \cup {e \in V \X V : \E w \in V : <<e[1], w>> \in rel /\ <<w, e[2]>> \in rel} IN
  IF more = rel THEN rel ELSE Closure(V, more)

(* the controls agree with the flow: nothing is controlled by its future *)
Consistent(c, ly) == Acyclic(Nd(c), FlowOrder(c, ly) \cup ControlPairs(c))
PartialOrder(c, ly) == Closure(Nd(c), FlowOrder(c, ly) \cup ControlPairs(c))

IsPermutationOf(seq, V) == Len(seq) = Cardinality(V) /\ ToSet(seq) = V
Respects(seq, po) ==
  \A i, j \in 1..Len(seq) : i < j => <<seq[j], seq[i]>> \notin po
LegalOrder(c, ly, seq) == IsPermutationOf(seq, Nd(c)) /\ Respects(seq, PartialOrder(c, ly))

(* --- edits ---------------------------------------------------------------- *)
CanSet(c, v, m) == v \in Nd(c) /\ m.k # "none"
DoSet(c, v, m) == [c EXCEPT !.m[v] = m]
CanDelete(c, v) == v \in Nd(c)
DoDelete(c, v) == [c EXCEPT !.m[v] = NoMent]
CanSetAll(c, given) == DOMAIN given \subseteq Nd(c)
DoSetAll(c, given) == [c EXCEPT !.m = Fill(c, given)]
DoEdges(c, es) ==
  [c EXCEPT !.nb = [v \in Nd(c) |-> c.nb[v] \cup {w \in Nd(c) : w # v /\ {v, w} \in es}]]
=============================================================================
