------------------------------- MODULE MC_Flow ------------------------------
(* Design check of the flow finders: the backward search is a state machine   *)
(* that corrects one layer after the other; on every open graph with n nodes  *)
(* its fixed point covers the graph exactly when a (generalized) flow exists  *)
(* by definition, the layers it assigns are a valid order, and no valid flow  *)
(* puts a node in a lower layer.                                              *)
EXTENDS OpenGraph, TLC

CONSTANTS N, MaxIO

ASSUME \A n \in 1..12 : /\ FlowLayers(ChainGraph(n), {0}, {n - 1}) = ChainLayers(n)
                        /\ Acyclic(0..(n - 1), Influence(ChainGraph(n), ChainFlow(n)))

VARIABLES nb, inp, out, layer, glayer, k, done
vars == <<nb, inp, out, layer, glayer, k, done>>

V == 0..(N - 1)
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
Graphs == {[v \in V |-> {w \in V : {v, w} \in es}] : es \in SUBSET AllEdges}

Init ==
  /\ nb \in Graphs
  /\ inp \in {S \in SUBSET V : Cardinality(S) <= MaxIO}
  /\ out \in {S \in SUBSET V : Cardinality(S) = Cardinality(inp)}
  /\ layer = [v \in out |-> 0]
  /\ glayer = [v \in out |-> 0]
  /\ k = 1
  /\ done = FALSE

Correct ==
  LET n1 == FlowCorrectable(nb, inp, DOMAIN layer)
      n2 == GFlowCorrectable(nb, inp, DOMAIN glayer) IN
  /\ ~done
  /\ n1 \cup n2 # {}
  /\ layer' = [v \in n1 |-> k] @@ layer
  /\ glayer' = [v \in n2 |-> k] @@ glayer
  /\ k' = k + 1
  /\ UNCHANGED <<nb, inp, out, done>>

Stop ==
  /\ ~done
  /\ FlowCorrectable(nb, inp, DOMAIN layer) = {}
  /\ GFlowCorrectable(nb, inp, DOMAIN glayer) = {}
  /\ done' = TRUE
  /\ UNCHANGED <<nb, inp, out, layer, glayer, k>>

Next == Correct \/ Stop
Spec == Init /\ [][Next]_vars

(* solving the linear system finds the same nodes as trying every set         *)
SolvingAgrees ==
  GFlowCorrectable(nb, inp, DOMAIN glayer) = GFlowCorrectableBySolving(nb, inp, DOMAIN glayer)
FlowIffExists == done => ((DOMAIN layer = V) <=> HasFlowByDefinition(nb, inp, out))
GFlowIffExists == done => ((DOMAIN glayer = V) <=> HasGFlowByDefinition(nb, inp, out))
(* every causal flow is a generalized flow, and never needs fewer layers *)
FlowImpliesGFlow ==
  done /\ DOMAIN layer = V => DOMAIN glayer = V /\ \A v \in V : glayer[v] <= layer[v]
AgreesWithLayers ==
  done => layer = FlowLayers(nb, inp, out) /\ glayer = GFlowLayers(nb, inp, out)
(* the layers of any valid flow are at least the ones found: check against    *)
(* the longest chains of the influence relation of every flow function        *)
RECURSIVE Height(_, _, _)
Height(rel, W, v) ==
  LET nx == {w \in W : <<v, w>> \in rel} IN
  IF nx = {} THEN 0 ELSE 1 + Max({Height(rel, W, w) : w \in nx})
Earliest ==
  done /\ DOMAIN layer = V =>
    \A f \in [V \ out -> V \ inp] :
      (/\ \A v \in V \ out : f[v] \in nb[v]
       /\ \A v, w \in V \ out : f[v] = f[w] => v = w
       /\ Acyclic(V, Influence(nb, f)))
      => \A v \in V \ out : Height(Influence(nb, f), V, v) >= layer[v]
=============================================================================
