------------------------------- MODULE MC_Stab ------------------------------
(* Design check of graph-state stabilizers and of the generators of a circuit. *)
(* A history adds and removes nodes and edges; in every graph the canonical    *)
(* generators commute and are independent, and for every choice of inputs and  *)
(* outputs with a causal flow each measured node has exactly one product of    *)
(* stabilizers of non-inputs that acts with Z or Y on it and with X or I on the *)
(* other measured nodes.  The bracket closure is closed and minimal.           *)
EXTENDS Pauli, Lie
CONSTANTS N, MaxGens

VARIABLES nb, order, inp, out
vars == <<nb, order, inp, out>>
Init == nb = [v \in {0} |-> {}] /\ order = <<0>> /\ inp = {} /\ out = {}
AddNode(v) == v \notin DOMAIN nb /\ nb' = [w \in DOMAIN nb \cup {v} |-> IF w = v THEN {} ELSE nb[w]] /\ order' = Append(order, v)
RemoveNode(v) == /\ Cardinality(DOMAIN nb) > 1 /\ v \in DOMAIN nb
                 /\ nb' = [w \in DOMAIN nb \ {v} |-> nb[w] \ {v}] /\ order' = SelectSeq(order, LAMBDA w : w # v)
Toggle(v, w) == /\ v \in DOMAIN nb /\ w \in DOMAIN nb /\ v < w
                /\ nb' = [nb EXCEPT ![v] = (@ \ {w}) \cup ({w} \ @), ![w] = (@ \ {v}) \cup ({v} \ @)] /\ UNCHANGED order
Edit == /\ inp = {} /\ out = {}
        /\ \/ \E v \in 0..(N - 1) : AddNode(v) \/ RemoveNode(v)
           \/ \E v, w \in 0..(N - 1) : Toggle(v, w)
        /\ UNCHANGED <<inp, out>>
Choose == /\ inp = {} /\ out = {} /\ order = [i \in 1..Len(order) |-> i - 1]
          /\ inp' \in SUBSET DOMAIN nb /\ inp' # {} /\ out' \in {S \in SUBSET DOMAIN nb : Cardinality(S) = Cardinality(inp')}
          /\ UNCHANGED <<nb, order>>
Spec == Init /\ [][Edit \/ Choose]_vars

St == Stabs(order, nb)
Commuting == \A i, j \in 1..Len(St) : Sym(St[i], St[j]) = 0
Independent == Cardinality(Group(ToSet(St))) = 2 ^ Len(St)
UniqueGenerator ==
  inp # {} /\ DOMAIN FlowLayers(nb, inp, out) = DOMAIN nb =>
    \A v \in DOMAIN nb \ out : Cardinality(GenSets(nb, inp, out, v)) = 1
(* closure: closed, contains the generators, nothing smaller will do *)
Closure ==
  inp # {} /\ Len(order) = 2 => \* a state where sets of generators on two qubits are tried
    \A G \in {S \in SUBSET Words(2) : Cardinality(S) <= MaxGens /\ S # {}} :
      LET B == Bracket(G) IN
      G \subseteq B /\ Nested(B) = B
=============================================================================
