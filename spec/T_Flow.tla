------------------------------- MODULE T_Flow -------------------------------
(* Conformance of the flow finders: every recorded answer for an open graph   *)
(* against the definitions of OpenGraph.                                      *)
EXTENDS OpenGraph, Replay

VSet(t) == 0..(t.n - 1)
Pairs(seq) == {<<p[1], p[2]>> : p \in ToSet(seq)}
Fun(seq) == [x \in {p[1] : p \in ToSet(seq)} |-> (CHOOSE p \in ToSet(seq) : p[1] = x)[2]]
SetFun(seq) == [x \in {p[1] : p \in ToSet(seq)} |-> ToSet((CHOOSE p \in ToSet(seq) : p[1] = x)[2])]

(* what is computed once per open graph *)
TInit(t) ==
  IF t.n > 100 THEN [n |-> t.n]
  ELSE
  LET nb == FromEdges(VSet(t), t.edges)
      I == ToSet(t.I)
      O == ToSet(t.O) IN
  [ nb |-> nb, I |-> I, O |-> O, gflow |-> t.gflow,
    equal |-> Cardinality(I) = Cardinality(O),
    fl |-> FlowLayers(nb, I, O),
    gl |-> IF ~t.gflow THEN <<>>
            ELSE IF t.n <= 7 THEN GFlowLayers(nb, I, O)
            ELSE GFlowLayersSolving(nb, I, O, 1, [v \in O |-> 0]) ]

LayerOrder(V, ly) == {e \in V \X V : ly[e[1]] > ly[e[2]]}

(* layers listed from the first measured to the outputs *)
ListedLayers(ls, ly, V) ==
  LET d == Depth(ly) IN
  /\ Len(ls) = d + 1
  /\ \A j \in 1..Len(ls) :
       /\ Len(ls[j]) = Cardinality(ToSet(ls[j]))
       /\ ToSet(ls[j]) = {v \in V : ly[v] = d + 1 - j}

CausalClauses(s, e) ==
  LET V == DOMAIN s.nb
      has == DOMAIN s.fl = V
      c == FlowClauses(s.nb, s.I, s.O, Fun(e.f), Pairs(e.po)) IN
  IF ~s.equal THEN Chk("unequal-sizes-accepted", e.res = "ValueError")
  ELSE IF e.res \notin {"flow", "none"} THEN {"finder-raised-" \o e.res}
  ELSE IF e.res = "none" THEN Chk("flow-missed", ~has)
  ELSE Chk("flow-invented", has) \cup
       (IF ~has THEN {} ELSE
          {"flow-" \o k : k \in {k \in DOMAIN c : ~c[k]}}
          \cup Chk("layers", Fun(e.ly) = s.fl)
          \cup Chk("order", Pairs(e.po) = LayerOrder(V, s.fl))
          \cup Chk("depth", e.depth = Depth(s.fl))
          \cup (IF e.listed THEN Chk("listed-layers", ListedLayers(e.layers, s.fl, V)) ELSE {}))

(* circuits expose the causal flow, and the layers of whichever flow exists *)
CircuitClauses(s, e) ==
  LET V == DOMAIN s.nb
      has == DOMAIN s.fl = V
      c == FlowClauses(s.nb, s.I, s.O, Fun(e.f), Pairs(e.po)) IN
  IF ~s.equal THEN Chk("unequal-sizes-accepted", e.res = "ValueError")
  ELSE IF e.res \notin {"flow", "none"} THEN {"circuit-raised-" \o e.res}
  ELSE Chk("circuit-flow-exists", (e.res = "flow") = has) \cup
       (IF ~has \/ e.res = "none" THEN {} ELSE
          {"circuit-flow-" \o k : k \in {k \in DOMAIN c : ~c[k]}}
          \cup Chk("circuit-order", Pairs(e.po) = LayerOrder(V, s.fl))
          \cup Chk("circuit-depth", e.depth = Depth(s.fl))
          \cup Chk("circuit-layers", ListedLayers(e.layers, s.fl, V)))

GClauses(s, e) ==
  LET V == DOMAIN s.nb
      has == DOMAIN s.gl = V
      g == SetFun(e.g)
      lower(u) == {v \in V : s.gl[v] < s.gl[u]} IN
  IF ~s.equal THEN {}
  ELSE IF e.res \notin {"flow", "none"} THEN {"gfinder-raised-" \o e.res}
  ELSE IF e.res = "none" THEN Chk("gflow-missed", ~has)
  ELSE Chk("gflow-invented", has) \cup
       (IF ~has THEN {} ELSE
          Chk("glayers", Fun(e.ly) = s.gl)
          \cup Chk("gorder", Pairs(e.po) = LayerOrder(V, s.gl))
          \cup Chk("gdepth", e.depth = Depth(s.gl))
          \cup Chk("gdomain", DOMAIN g = V \ s.O)
          \cup (IF DOMAIN g # V \ s.O THEN {} ELSE
                  Chk("gcorrection-input", \A u \in V \ s.O : g[u] \subseteq V \ s.I)
                  \cup Chk("gcorrection-lower", \A u \in V \ s.O : g[u] \subseteq lower(u))
                  \cup Chk("gcorrection-odd",
                         \A u \in V \ s.O : Odd(s.nb, g[u]) \ lower(u) = {u}))
          \cup (IF e.listed THEN Chk("glisted-layers", ListedLayers(e.layers, s.gl, V)) ELSE {}))

(* the flow object: the causal flow if there is one, else the generalized one *)
ObjClauses(s, e) ==
  LET V == DOMAIN s.nb
      hasF == DOMAIN s.fl = V
      hasG == DOMAIN s.gl = V
      ly == IF hasF THEN s.fl ELSE s.gl IN
  IF ~s.equal THEN Chk("object-unequal-sizes-accepted", e.res = "ValueError")
  ELSE IF e.res \notin {"flow", "none"} THEN {"object-raised-" \o e.res}
  ELSE Chk("object-exists", (e.res = "flow") = (hasF \/ hasG)) \cup
       (IF ~(hasF \/ hasG) \/ e.res = "none" THEN {} ELSE
          Chk("object-layers", ListedLayers(e.layers, ly, V))
          \cup Chk("object-depth", e.depth = Depth(ly))
          \cup Chk("object-order", Pairs(e.po) = LayerOrder(V, ly)))

(* the deprecated finder, which goes through path covers: same existence, and *)
(* its order is the coarsest one, the reflexive transitive closure of the     *)
(* influence relation (with as many inputs as outputs the flow is unique)     *)
RECURSIVE Close(_, _)
Close(V, rel) ==
  LET more == {e \in V \X V : e \notin rel /\ \E w \in V : <<e[1], w>> \in rel /\ <<w, e[2]>> \in rel} IN
  IF more = {} THEN rel ELSE Close(V, rel \cup more)

OldClauses(s, e) ==
  LET V == DOMAIN s.nb
      has == DOMAIN s.fl = V
      f == Fun(e.f)
      c == FlowClauses(s.nb, s.I, s.O, f, Pairs(e.po)) IN
  IF ~s.equal THEN Chk("old-unequal-sizes-accepted", e.res = "ValueError")
  ELSE IF e.res \notin {"flow", "none"} THEN {"old-finder-raised-" \o e.res}
  ELSE Chk("old-flow-exists", (e.res = "flow") = has) \cup
       (IF ~has \/ e.res = "none" THEN {} ELSE
          LET broken == {k \in DOMAIN c : ~c[k]} IN
          {"old-flow-" \o k : k \in broken}
          \cup (IF broken # {} THEN {} ELSE
                 Chk("old-order", Pairs(e.po) = Close(V, Influence(s.nb, f) \cup {<<v, v>> : v \in V}))))

(* the flow checker decides the three conditions for what it is given *)
CheckerClauses(s, e) ==
  LET c == FlowClauses(s.nb, s.I, s.O, Fun(e.f), Pairs(e.po)) IN
  IF e.res # "ok" THEN {"checker-raised-" \o e.res}
  ELSE Chk("checker", e.ans = (c.neighbour /\ c.beforeF /\ c.beforeN))

(* the order listed by the flow object: all nodes, none after one it precedes *)
OrderClauses(s, e) ==
  LET V == DOMAIN s.nb
      hasF == DOMAIN s.fl = V
      ly == IF hasF THEN s.fl ELSE s.gl
      has == DOMAIN ly = V IN
  IF ~hasF /\ ~s.gflow THEN {}
  ELSE IF e.res \notin {"flow", "none"} THEN {"object-order-raised-" \o e.res}
  ELSE IF e.res = "none" \/ ~has THEN Chk("object-order-exists", (e.res = "flow") = has)
  ELSE Chk("object-order-nodes", Len(e.seq) = Cardinality(V) /\ ToSet(e.seq) = V)
       \cup Chk("object-order-respected",
              \A a, b \in 1..Len(e.seq) : a < b => ~(ly[e.seq[b]] > ly[e.seq[a]]))

(* a long chain: every entry of the function and of the layers, in order       *)
ChainClauses(n, e) ==
  IF e.res # "flow" THEN {"chain-flow-missed-" \o e.res}
  ELSE Chk("chain-flow", e.f = [i \in 1..(n - 1) |-> ChainFlow(n)[i - 1]])
       \cup Chk("chain-layers", e.ly = [i \in 1..n |-> ChainLayers(n)[i - 1]])
       \cup Chk("chain-depth", e.depth = n - 1)

TStep(t, s, e) ==
  [ st |-> s,
    bad |-> CASE e.op = "cflow" -> CausalClauses(s, e)
              [] e.op = "circuit" -> CircuitClauses(s, e)
              [] e.op = "gflow" -> GClauses(s, e)
              [] e.op = "object" -> ObjClauses(s, e)
              [] e.op = "oldfinder" -> OldClauses(s, e)
              [] e.op = "chain" -> ChainClauses(s.n, e)
              [] e.op = "checker" -> CheckerClauses(s, e)
              [] e.op = "order" -> OrderClauses(s, e)
              [] OTHER -> {"unknown-event"} ]
=============================================================================
