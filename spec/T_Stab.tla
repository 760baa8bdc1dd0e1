------------------------------- MODULE T_Stab -------------------------------
(* Conformance of graph-state stabilizers (histories of edits of a graph) and  *)
(* of the Lie algebra functions.                                               *)
EXTENDS Pauli, Lie, Replay

SInit(t) == [order |-> <<>>, nb |-> [v \in {} |-> {}]]

WithNode(s, v) == IF v \in DOMAIN s.nb THEN s
                  ELSE [order |-> Append(s.order, v), nb |-> [w \in DOMAIN s.nb \cup {v} |-> IF w = v THEN {} ELSE s.nb[w]]]
WithEdge(s, v, w) == LET r == WithNode(WithNode(s, v), w) IN
                     [r EXCEPT !.nb = [r.nb EXCEPT ![v] = @ \cup {w}, ![w] = @ \cup {v}]]
RECURSIVE WithAll(_, _)
WithAll(s, es) == IF es = <<>> THEN s ELSE WithAll(WithEdge(s, es[1][1], es[1][2]), Tail(es))
RECURSIVE WithNodes(_, _)
WithNodes(s, vs) == IF vs = <<>> THEN s ELSE WithNodes(WithNode(s, vs[1]), Tail(vs))
Without(s, v) == [order |-> SelectSeq(s.order, LAMBDA w : w # v), nb |-> [w \in DOMAIN s.nb \ {v} |-> s.nb[w] \ {v}]]
NoEdge(s, v, w) == [s EXCEPT !.nb = [s.nb EXCEPT ![v] = @ \ {w}, ![w] = @ \ {v}]]

Looks(s, e) ==
  Chk("stabilizers", e.stabs = Stabs(s.order, s.nb))
  \cup Chk("index-mapping", e.map = [i \in 1..Len(s.order) |-> <<s.order[i], i - 1>>])
After(s2, e) == [st |-> s2, bad |-> Chk("raised", e.res = "ok") \cup (IF e.res = "ok" /\ e.seen THEN {e.op \o ":" \o x : x \in Looks(s2, e)} ELSE {})]

PairsOf(seq) == {<<p[1], p[2]>> : p \in ToSet(seq)}
SStep(t, s, e) ==
  CASE e.op = "start" -> After(WithAll(WithNodes(s, e.nodes), e.edges), e)
    [] e.op = "node" -> After(WithNode(s, e.v), e)
    [] e.op = "edges" -> After(WithAll(s, e.edges), e)
    [] e.op = "del" -> After(Without(s, e.v), e)
    [] e.op = "cut" -> After(NoEdge(s, e.v, e.w), e)
    [] e.op = "same" -> After(s, e)        \* copies and views of the same graph
    (* the Lie algebra of a circuit *)
    [] e.op = "lie" ->
         LET V == 0..(e.n - 1)
             nb == FromEdges(V, e.edges)
             ord == [i \in 1..e.n |-> i - 1]
             Oc == SelectSeq(ord, LAMBDA v : v \notin ToSet(e.O))
             sets == [i \in 1..Len(Oc) |-> GenSets(nb, ToSet(e.I), ToSet(e.O), Oc[i])]
             full == {GenWord(nb, CHOOSE S \in sets[i] : TRUE, ord) : i \in 1..Len(Oc)}
             seqs == [i \in 1..Len(Oc) |-> GenWord(nb, CHOOSE S \in sets[i] : TRUE, ord)]
             rest == {[i \in 1..Len(e.O) |-> w[e.O[i] + 1]] : w \in full} IN
         [ st |-> s,
           bad |-> Chk("spec:not-unique", \A i \in 1..Len(Oc) : Cardinality(sets[i]) = 1)
             \cup Chk("raised", e.res = "ok")
             \cup (IF e.res # "ok" THEN {} ELSE
               Chk("complete-generators", e.complete = seqs)
               \cup Chk("generators", ToSet(e.gens) = rest)
               \cup Chk("repeated-generators", Len(e.gens) = Cardinality(ToSet(e.gens)))
               \cup (IF Len(e.algebra) = 0 THEN {} ELSE
                      Chk("algebra", ToSet(e.algebra) = Bracket(rest) \cup {Identity(Len(e.O))})
                      \cup Chk("repeated-elements", Len(e.algebra) = Cardinality(ToSet(e.algebra))))) ]
    (* dimensions, as numbers of matrix units: all but the identity; one for   *)
    (* every pair; for the symplectic algebra (n even) pairs and squares         *)
    [] e.op = "dim" ->
         LET pairs == Cardinality({p \in (1..e.n) \X (1..e.n) : p[1] < p[2]}) IN
         [ st |-> s,
           bad |-> Chk("dimension-su", e.su = Cardinality((1..e.n) \X (1..e.n)) - 1)
             \cup Chk("dimension-so", e.so = pairs)
             \cup Chk("dimension-sp", e.sp = IF e.n % 2 = 0 THEN pairs + e.n ELSE -1) ]
    [] e.op = "complete" ->
         LET want == Bracket(ToSet(e.gens)) \cup {Identity(Len(e.gens[1]))} IN
         [ st |-> s,
           bad |-> Chk("raised-although-not-cut-short", e.res = "ok" \/ e.short)
             \cup Chk("generators-modified", e.kept)
             \cup (IF e.res # "ok" THEN {} ELSE
                    Chk("completion", ToSet(e.result) = want)
                    \cup Chk("repeated-elements", Len(e.result) = Cardinality(ToSet(e.result)))) ]
    [] e.op = "distinct" ->
         [ st |-> s, bad |-> Chk("raised", e.res = "ok") \cup Chk("generators-modified", e.kept)
             \cup (IF e.res = "ok" THEN Chk("distinct", ToSet(e.result) = ToSet(e.gens) /\ Len(e.result) = Cardinality(ToSet(e.result))) ELSE {}) ]
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
=============================================================================
