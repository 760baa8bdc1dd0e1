-------------------------------- MODULE Iso ---------------------------------
(* When two graphs are the same up to the names of their nodes.  A graph is   *)
(* [V |-> set of nodes, E |-> set of two-element sets].                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Joined(g, a, b) == {a, b} \in g.E
Deg(g, v) == Cardinality({e \in g.E : v \in e})

(* the definition *)
SameByDefinition(g, h) ==
  /\ Cardinality(g.V) = Cardinality(h.V)
  /\ \E f \in [g.V -> h.V] :
       /\ \A a, b \in g.V : a # b => f[a] # f[b]
       /\ \A a, b \in g.V : a # b => (Joined(g, a, b) <=> Joined(h, f[a], f[b]))

(* the same, node by node: f is the sequence of images of vs[1], vs[2], ...    *)
RECURSIVE Extends(_, _, _, _)
Extends(g, h, vs, f) ==
  IF Len(f) = Len(vs) THEN TRUE
  ELSE LET v == vs[Len(f) + 1] IN
       \E w \in h.V :
         /\ \A i \in 1..Len(f) : f[i] # w
         /\ Deg(g, v) = Deg(h, w)
         /\ \A i \in 1..Len(f) : Joined(g, vs[i], v) <=> Joined(h, f[i], w)
         /\ Extends(g, h, vs, Append(f, w))
Same(g, h) ==
  /\ Cardinality(g.V) = Cardinality(h.V)
  /\ Cardinality(g.E) = Cardinality(h.E)
  /\ Extends(g, h, SetToSeq(g.V), <<>>)

(* edits *)
WithNode(g, v) == [g EXCEPT !.V = @ \cup {v}]
WithEdge(g, a, b) == [V |-> g.V \cup {a, b}, E |-> g.E \cup {{a, b}}]
WithoutNode(g, v) == [V |-> g.V \ {v}, E |-> {e \in g.E : v \notin e}]
WithoutEdge(g, a, b) == [g EXCEPT !.E = @ \ {{a, b}}]
Renamed(g, f) == [V |-> {f[v] : v \in g.V}, E |-> {{f[v] : v \in e} : e \in g.E}]
=============================================================================
