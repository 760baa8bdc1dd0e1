----------------------------- MODULE OpenGraph ------------------------------
(* Open graphs (G, I, O): the resource of a one-way computation.  A graph is  *)
(* a function from its nodes to their neighbours; everything about flows is   *)
(* stated on it.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, GF2

Nodes(nb) == DOMAIN nb

(* graph on nodes V with the edges listed as a sequence of pairs *)
FromEdges(V, es) ==
  LET S == ToSet(es) IN
  [v \in V |-> {w \in V : w # v /\ (<<v, w>> \in S \/ <<w, v>> \in S)}]

EdgeSet(nb) == {{v, w} : v \in DOMAIN nb, w \in DOMAIN nb} \cap
               UNION {{{v, w} : w \in nb[v]} : v \in DOMAIN nb}

Odd(nb, K) == {v \in DOMAIN nb : Cardinality(nb[v] \cap K) % 2 = 1}

(* --- causal flow ---------------------------------------------------------- *)

(* validity of a flow function f on O^c, with respect to a strict order given *)
(* as a set of pairs                                                          *)
FlowClauses(nb, I, O, f, po) ==
  LET V == DOMAIN nb
      Oc == V \ O IN
  [ domain    |-> DOMAIN f = Oc,
    range     |-> \A v \in DOMAIN f : f[v] \in V \ I,
    injective |-> \A v, w \in DOMAIN f : f[v] = f[w] => v = w,
    neighbour |-> \A v \in DOMAIN f : f[v] \in V => f[v] \in nb[v],
    beforeF   |-> \A v \in DOMAIN f : <<v, f[v]>> \in po,
    beforeN   |-> \A v \in DOMAIN f : f[v] \in V => \A w \in nb[f[v]] \ {v} : <<v, w>> \in po ]

StrictOrder(V, po) ==
  /\ \A v \in V : <<v, v>> \notin po
  /\ \A e \in po : <<e[2], e[1]>> \notin po
  /\ \A e \in po : \A w \in V : <<e[2], w>> \in po => <<e[1], w>> \in po

IsFlow(nb, I, O, f, po) ==
  LET c == FlowClauses(nb, I, O, f, po) IN
  /\ StrictOrder(DOMAIN nb, po)
  /\ \A k \in DOMAIN c : c[k]

(* definition of existence: some function whose influence relation is acyclic *)
RECURSIVE Acyclic(_, _)
Acyclic(V, rel) ==
  IF V = {} THEN TRUE
  ELSE LET src == {v \in V : ~\E u \in V : <<u, v>> \in rel} IN
       src # {} /\ Acyclic(V \ src, rel)

Influence(nb, f) ==
  UNION {{<<v, f[v]>>} \cup {<<v, w>> : w \in nb[f[v]] \ {v}} : v \in DOMAIN f}

HasFlowByDefinition(nb, I, O) ==
  LET V == DOMAIN nb IN
  \E f \in [V \ O -> V \ I] :
     /\ \A v \in V \ O : f[v] \in nb[v]
     /\ \A v, w \in V \ O : f[v] = f[w] => v = w
     /\ Acyclic(V, Influence(nb, f))

(* one backward step: the nodes that a corrected node can correct now *)
FlowCorrectable(nb, I, C) ==
  {u \in DOMAIN nb \ C : \E v \in C \ I : nb[v] \ C = {u}}

(* earliest layers, from the outputs backwards; nodes in no flow get none *)
RECURSIVE FlowLayersFrom(_, _, _, _, _)
FlowLayersFrom(nb, I, C, k, ly) ==
  LET N == FlowCorrectable(nb, I, C) IN
  IF N = {} THEN ly
  ELSE FlowLayersFrom(nb, I, C \cup N, k + 1, [v \in N |-> k] @@ ly)

FlowLayers(nb, I, O) == FlowLayersFrom(nb, I, O, 1, [v \in O |-> 0])
HasFlow(nb, I, O) == DOMAIN FlowLayers(nb, I, O) = DOMAIN nb

(* closed form for chains 0 - 1 - ... - (n-1) from 0 to n-1                    *)
ChainFlow(n) == [v \in 0..(n - 2) |-> v + 1]
ChainLayers(n) == [v \in 0..(n - 1) |-> n - 1 - v]
ChainGraph(n) == [v \in 0..(n - 1) |-> {v - 1, v + 1} \cap (0..(n - 1))]

(* --- generalized flow (all measurements in the XY plane) ------------------ *)

GFlowCorrectable(nb, I, C) ==
  {u \in DOMAIN nb \ C : \E K \in SUBSET (C \ I) : Odd(nb, K) \ C = {u}}

(* the same question as a linear system over GF(2): one row for every node    *)
(* not yet corrected, one column for every candidate (MC_Flow checks that the *)
(* two agree; this one scales)                                                *)
GFlowSolvable(nb, I, C, u) ==
  LET left == SetToSeq(DOMAIN nb \ C)
      cand == C \ I IN
  Solvable(TLCEval([i \in 1..Len(left) |->
             [s |-> nb[left[i]] \cap cand, b |-> IF left[i] = u THEN 1 ELSE 0]]))
GFlowCorrectableBySolving(nb, I, C) == {u \in DOMAIN nb \ C : GFlowSolvable(nb, I, C, u)}

RECURSIVE GFlowLayersSolving(_, _, _, _, _)
GFlowLayersSolving(nb, I, C, k, ly) ==
  LET N == TLCEval(GFlowCorrectableBySolving(nb, I, C)) IN
  IF N = {} THEN ly
  ELSE GFlowLayersSolving(nb, I, TLCEval(C \cup N), k + 1, TLCEval([v \in N |-> k] @@ ly))

RECURSIVE GFlowLayersFrom(_, _, _, _, _)
GFlowLayersFrom(nb, I, C, k, ly) ==
  LET N == GFlowCorrectable(nb, I, C) IN
  IF N = {} THEN ly
  ELSE GFlowLayersFrom(nb, I, C \cup N, k + 1, [v \in N |-> k] @@ ly)

GFlowLayers(nb, I, O) == GFlowLayersFrom(nb, I, O, 1, [v \in O |-> 0])
HasGFlow(nb, I, O) == DOMAIN GFlowLayers(nb, I, O) = DOMAIN nb

(* definition: a total order of the measured nodes in which every node has a  *)
(* correction set of later non-input nodes that flips it and nothing earlier  *)
RECURSIVE GFlowOrder(_, _, _, _)
GFlowOrder(nb, I, O, done) ==
  LET V == DOMAIN nb
      left == V \ (O \cup done) IN
  left = {} \/
  \E u \in left :
     /\ \E K \in SUBSET ((V \ (done \cup {u})) \ I) : Odd(nb, K) \cap (done \cup {u}) = {u}
     /\ GFlowOrder(nb, I, O, done \cup {u})
HasGFlowByDefinition(nb, I, O) == GFlowOrder(nb, I, O, {})

Depth(ly) == Max({ly[v] : v \in DOMAIN ly} \cup {0})
=============================================================================
