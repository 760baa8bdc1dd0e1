-------------------------------- MODULE T_Iso -------------------------------
(* Recorded histories of pairs of graph states and of their comparisons.      *)
EXTENDS Iso, Replay
Zero2 == [V |-> {}, E |-> {}]
IInit(t) == <<Zero2, Zero2>>
Built(e) == [V |-> ToSet(e.nodes) \cup UNION {{p[1], p[2]} : p \in ToSet(e.edges)}, E |-> {{p[1], p[2]} : p \in ToSet(e.edges)}]
Edited(g, e) ==
  CASE e.op = "build" -> Built(e)
    [] e.op = "node" -> WithNode(g, e.v)
    [] e.op = "edge" -> WithEdge(g, e.v, e.w)
    [] e.op = "del" -> WithoutNode(g, e.v)
    [] e.op = "cut" -> WithoutEdge(g, e.v, e.w)
    [] OTHER -> g
IStep(t, s, e) ==
  LET s2 == [s EXCEPT ![e.side] = Edited(@, e)]
      same == Same(s2[1], s2[2]) IN
  [st |-> s2,
   bad |-> Chk("edit-failed", e.ok)
           \cup (IF e.op # "look" THEN {}
                 ELSE IF ~e.ok THEN {}
                 ELSE Chk("equality", e.eq = same) \cup Chk("equality-swapped", e.qe = same)
                      \cup Chk("inequality", e.ne = ~same) \cup Chk("membership", e.isin = same)
                      \cup Chk("reflexive", e.self)
                      \cup Chk("size", e.len = Cardinality(s2[e.side].V) /\ e.text)
                      \cup Chk("graphs-changed", e.seen = [i \in 1..2 |-> <<Cardinality(s2[i].V), Cardinality(s2[i].E)>>]))]
=============================================================================
