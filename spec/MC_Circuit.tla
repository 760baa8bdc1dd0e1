------------------------------ MODULE MC_Circuit ----------------------------
(* Design model of circuit objects under edits.  The measurement order is     *)
(* state: it is recomputed when a controlled measurement is set and when the  *)
(* graph changes, and kept by every other edit.  TLC checks that this keeps   *)
(* the order legal in every reachable state, that derived attributes are      *)
(* consistent, and that circuits and their copies do not influence each       *)
(* other.  In simulation mode the histories are printed and replayed into the *)
(* real code.                                                                 *)
EXTENDS Circuit, Json, Randomization

CONSTANTS Depth0, Gen

VARIABLES g, cs, ord, hist, done
vars == <<g, cs, ord, hist, done>>

(* simulation draws one parameter per action; model checking takes them all *)
Pick(S) == IF Gen /\ S # {} THEN {RandomElement(S)} ELSE S

Opens ==
  { [n |-> 3, edges |-> {{0, 1}, {1, 2}}, I |-> <<0>>, O |-> <<2>>],
    [n |-> 3, edges |-> {{0, 2}}, I |-> <<0, 1>>, O |-> <<2, 1>>],
    [n |-> 3, edges |-> {{0, 1}, {1, 2}}, I |-> <<2>>, O |-> <<0>>] }
  \cup (IF Gen THEN
  { [n |-> 4, edges |-> {{0, 2}, {1, 3}, {0, 1}}, I |-> <<0, 1>>, O |-> <<3, 2>>],
    [n |-> 4, edges |-> {{0, 1}, {1, 2}, {2, 3}, {0, 3}}, I |-> <<0, 3>>, O |-> <<1, 2>>],
    [n |-> 5, edges |-> {{0, 1}, {1, 2}, {3, 4}}, I |-> <<0, 3>>, O |-> <<2, 4>>],
    [n |-> 5, edges |-> {{0, 1}, {1, 2}, {2, 3}, {3, 4}}, I |-> <<4>>, O |-> <<0>>] } ELSE {})

Nb(x) == [v \in 0..(x.n - 1) |-> {w \in 0..(x.n - 1) : {v, w} \in x.edges /\ v # w}]
XY == [k |-> "m", p |-> "XY", a |-> NoAngle, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}]

(* orders the object lists; empty when there is no flow *)
Orders(c) ==
  LET ly == FlowOf(c)
      po == PartialOrder(c, ly) IN
  IF ~FlowExists(c, ly) THEN {<<>>}
  ELSE {s \in [1..Cardinality(Nd(c)) -> Nd(c)] : ToSet(s) = Nd(c) /\ Respects(s, po)}

SomeOrder(c) == CHOOSE s \in Orders(c) : TRUE

Plain == {[k |-> "m", p |-> "XZ", a |-> 1, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}],
          [k |-> "m", p |-> "X", a |-> 0, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}]}
         \cup (IF Gen THEN {XY, [k |-> "m", p |-> "YZ", a |-> NoAngle, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}]} ELSE {})
Ctrl(S) == [k |-> "c", p |-> "X", a |-> 0, tp |-> "XY", ta |-> NoAngle, cond |-> S, tru |-> {S}]

Init ==
  /\ g \in Opens
  /\ cs = <<NewCircuit(Nb(g), g.I, g.O, XY, <<>>)>>
  /\ ord = <<SomeOrder(cs[1])>>
  /\ hist = <<>>
  /\ done = FALSE

Upd(i, c, o) ==
  /\ cs' = [cs EXCEPT ![i] = c]
  /\ ord' = [ord EXCEPT ![i] = o]
  /\ UNCHANGED <<g, done>>

Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
On(i, op) == [op |-> op, c |-> i]

SetPlain(i) ==
  \E v \in Pick(Nd(cs[i])), m \in Pick(Plain) :
     /\ Upd(i, DoSet(cs[i], v, m), ord[i])
     /\ Log([op |-> "set", c |-> i, v |-> v, m |-> m])

(* conditions the flow allows; without a flow, any *)
SetControlled(i) ==
  \E v \in Pick(Nd(cs[i])) :
    LET c == cs[i]
        ly == FlowOf(c)
        may == IF FlowExists(c, ly) THEN {w \in Nd(c) : ly[w] > ly[v]} ELSE {} IN
    \E S \in Pick((SUBSET may) \ {{}}) :
      LET c2 == DoSet(c, v, Ctrl(S)) IN
      /\ S # {}
      /\ Upd(i, c2, SomeOrder(c2))
      /\ Log([op |-> "set", c |-> i, v |-> v, m |-> Ctrl(S)])

Delete(i) ==
  \E v \in Pick(Nd(cs[i])) :
     /\ Upd(i, DoDelete(cs[i], v), ord[i])
     /\ Log([op |-> "del", c |-> i, v |-> v])

AddEdge(i) ==
  \E v, w \in Pick(Nd(cs[i])) :
     LET c2 == DoEdges(cs[i], {{v, w}}) IN
     /\ v # w
     /\ FlowExists(c2, FlowOf(c2)) => Consistent(c2, FlowOf(c2))
     /\ Upd(i, c2, SomeOrder(c2))
     /\ Log([op |-> "edges", c |-> i, e |-> <<v, w>>])

SetOrder(i) ==
  LET c == cs[i]
      all == {s \in [1..Cardinality(Nd(c)) -> Nd(c)] : ToSet(s) = Nd(c)} IN
  /\ ord[i] # <<>>
  /\ \E s \in (IF Gen THEN Pick(all) \cup Pick(Orders(c)) ELSE all) :
       /\ Upd(i, c, IF s \in Orders(c) THEN s ELSE ord[i])
       /\ Log([op |-> "order", c |-> i, s |-> s])

Copy ==
  /\ Len(cs) = 1
  /\ cs' = <<cs[1], cs[1]>>
  /\ ord' = <<ord[1], ord[1]>>
  /\ UNCHANGED <<g, done>>
  /\ Log([op |-> "copy", c |-> 1])

Edit ==
  \/ \E i \in 1..Len(cs) : SetPlain(i) \/ SetControlled(i) \/ Delete(i) \/ AddEdge(i) \/ SetOrder(i)
  \/ Copy

Emit ==
  /\ Gen /\ Len(hist) = Depth0 /\ ~done
  /\ done' = TRUE
  /\ UNCHANGED <<g, cs, ord, hist>>
  /\ PrintT("@@B " \o ToJson([g |-> g, hist |-> hist]))

Next == (~done /\ (Gen => Len(hist) < Depth0) /\ Edit) \/ Emit

Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Depth0

(* the order is never stale: no edit that keeps it can make it illegal *)
OrderLegal ==
  \A i \in 1..Len(cs) :
    LET c == cs[i] ly == FlowOf(c) IN
    IF FlowExists(c, ly) THEN Consistent(c, ly) => ord[i] # <<>> /\ LegalOrder(c, ly, ord[i])
    ELSE ord[i] = <<>>

ControlsAfterReads ==
  \A i \in 1..Len(cs) :
    LET c == cs[i] o == ord[i]
        at(v) == CHOOSE j \in 1..Len(o) : o[j] = v IN
    o # <<>> => \A v \in Controlled(c) : \A w \in c.m[v].cond : at(w) < at(v)

AttributesPartition ==
  \A i \in 1..Len(cs) :
    LET c == cs[i] IN
    /\ ToSet(QuantumOut(c)) \cup ToSet(ClassicalOut(c)) = ToSet(c.O)
    /\ ToSet(QuantumOut(c)) \cap ToSet(ClassicalOut(c)) = {}
    /\ \A v \in Trainable(c) : c.m[v].k # "none"
    /\ Controlled(c) \cap ToSet(QuantumOut(c)) = {}
=============================================================================
