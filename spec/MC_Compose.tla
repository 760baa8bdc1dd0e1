----------------------------- MODULE MC_Compose -----------------------------
(* Design check of composition.  A history starts from two or three small     *)
(* circuits and composes them one after the other, in either association; the *)
(* meaning of the result (the zero-outcome branch, exactly) is the           *)
(* composition of the meanings, and gluing loses nothing.                     *)
EXTENDS Compose, Pattern

CONSTANTS N, Angs

VARIABLES a, b, whole, kind
vars == <<a, b, whole, kind>>

XYm(x) == [k |-> "m", p |-> "XY", a |-> x, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}]
Small(n) ==
  LET V == 0..(n - 1)
      E == {e \in SUBSET V : Cardinality(e) = 2} IN
  {c \in UNION {UNION {
      {NewCircuit([v \in V |-> {w \in V : {v, w} \in es}], <<i>> , <<o>>, XYm(0), [v \in V \ {o} |-> XYm((v * 3 + x) % 8)])
        : x \in Angs} : i \in V, o \in V} : es \in SUBSET E} : FlowExists(c, FlowOf(c))}
Two ==
  LET V == 0..3
      f(es, I, O, x) == NewCircuit([v \in V |-> {w \in V : {v, w} \in es}], I, O, XYm(0), [v \in V \ ToSet(O) |-> XYm((v * 3 + x) % 8)]) IN
  {f({{0, 2}, {1, 3}}, <<0, 1>>, <<2, 3>>, 1), f({{0, 2}, {1, 3}, {2, 3}}, <<0, 1>>, <<3, 2>>, 2),
   f({{0, 3}, {1, 2}, {0, 1}}, <<1, 0>>, <<2, 3>>, 3), f({{1, 2}, {2, 3}}, <<0, 1>>, <<0, 3>>, 1)}
All == UNION {Small(n) : n \in 1..N} \cup Two

Edges2(c) == {<<Min(e), Max(e)>> : e \in EdgeSet(c.nb)}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET v == Min(S) IN <<v>> \o SetSeq(S \ {v})
Meaning(c, in) ==
  LET ms == SetSeq({v \in Nd(c) : c.m[v].k = "m"}) IN
  RunPattern(Size(c), Edges2(c), c.I, in,
             [i \in 1..Len(ms) |-> [v |-> ms[i], bra |-> Bra(c.m[ms[i]].p, <<c.m[ms[i]].a, 0>>, <<0, 0>>, 0)]],
             QuantumOut(c)).psi
In(k) == [i \in 1..(2 ^ k) |-> <<i, 1 - i, 2, 0>>]

Init == a \in All /\ b \in All /\ whole = <<>> /\ kind = ""
ComposeSeq ==
  /\ kind = "" /\ CanSeq(a, b)
  /\ kind' = "seq" /\ whole' = Seq2(a, b) /\ UNCHANGED <<a, b>>
ComposePar ==
  /\ kind = "" /\ Size(a) + Size(b) <= 6
  /\ kind' = "par" /\ whole' = Side2(a, b) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][ComposeSeq \/ ComposePar]_vars

NoSharedEdge ==
  \A e \in EdgeSet(a.nb) : e \subseteq ToSet(a.O) =>
      {b.I[At(a.O, v)] : v \in e} \notin EdgeSet(b.nb)
SeqMeaning ==
  kind = "seq" /\ NoSharedEdge =>
     Parallel(Meaning(whole, In(Len(a.I))), Meaning(b, Meaning(a, In(Len(a.I)))))
ParMeaning ==
  kind = "par" =>
     Parallel(Meaning(whole, Kron(In(Len(a.I)), In(Len(b.I)))),
              Kron(Meaning(a, In(Len(a.I))), Meaning(b, In(Len(b.I)))))
NothingLost ==
  /\ kind = "par" => /\ Size(whole) = Size(a) + Size(b)
                     /\ Cardinality(EdgeSet(whole.nb)) = Cardinality(EdgeSet(a.nb)) + Cardinality(EdgeSet(b.nb))
                     /\ Len(whole.I) = Len(a.I) + Len(b.I) /\ Len(whole.O) = Len(a.O) + Len(b.O)
  /\ kind = "seq" => /\ Size(whole) = Size(a) + Size(b) - Len(a.O)
                     /\ NoSharedEdge => Cardinality(EdgeSet(whole.nb)) = Cardinality(EdgeSet(a.nb)) + Cardinality(EdgeSet(b.nb))
                     /\ Len(whole.I) = Len(a.I) /\ Len(whole.O) = Len(b.O)
(* flows compose *)
FlowsCompose == kind # "" => FlowExists(whole, FlowOf(whole))
=============================================================================
