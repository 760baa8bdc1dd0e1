------------------------------- MODULE MC_Iso -------------------------------
(* Design check: two graphs are edited at will; the search node by node       *)
(* agrees with the definition, equality is symmetric, and a renamed copy is   *)
(* equal and stays so under the same edit of both.                             *)
EXTENDS Iso
CONSTANTS Ids
VARIABLES g, h
Empty == [V |-> {}, E |-> {}]
Init == g = Empty /\ h = Empty
Pairs == {p \in Ids \X Ids : p[1] < p[2]}
Edits(x) ==
  {WithNode(x, v) : v \in Ids} \cup {WithEdge(x, p[1], p[2]) : p \in Pairs}
  \cup {WithoutNode(x, v) : v \in x.V} \cup {WithoutEdge(x, p[1], p[2]) : p \in Pairs}
Next == \/ g' \in Edits(g) /\ UNCHANGED h
        \/ h' \in Edits(h) /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, h>>
Agrees == Same(g, h) <=> SameByDefinition(g, h)
Symmetric == Same(g, h) <=> Same(h, g)
Mirror == [v \in Ids |-> (CHOOSE m \in Ids : \A i \in Ids : i <= m) - v]
RenamedSame ==
  /\ Same(g, Renamed(g, Mirror))
  /\ \A v \in g.V : Same(WithoutNode(g, v), WithoutNode(Renamed(g, Mirror), Mirror[v]))
=============================================================================
