------------------------------ MODULE MC_Outcome ---------------------------
(* Expressions over outcomes: all trees up to a depth, on all assignments.     *)
EXTENDS Outcome, TLC
CONSTANTS Nodes, Consts, Depth
VARIABLES e, left
vars == <<e, left>>

Leaves == {[op |-> "node", v |-> n] : n \in Nodes} \cup {[op |-> "mconst", c |-> k] : k \in Consts}
Ops == {"add", "sub", "mul", "xor", "and", "or", "eq", "ne", "lt", "le", "gt", "ge", "pow", "mod", "floordiv"}
Rights == Leaves \cup {[op |-> "const", c |-> k] : k \in Consts}

Init == e \in Leaves /\ left = Depth
Grow ==
  /\ left > 0 /\ left' = left - 1
  /\ \/ e' = [op |-> "not", a |-> e]
     \/ e' = [op |-> "wrap", a |-> e]
     \/ \E o \in Ops, r \in Rights : e' = [op |-> o, a |-> e, b |-> r]
     \/ \E o \in Ops, r \in Leaves : e' = [op |-> o, a |-> r, b |-> e]
Next == Grow
Spec == Init /\ [][Next]_vars

Assignments == [Nodes -> {0, 1}]
BitValued == \A s \in Assignments : Defined(e, s) => Eval(e, s) \in {0, 1}
ReadsSound == \A s, r \in Assignments :
  (\A v \in Reads(e) : s[v] = r[v]) => /\ Defined(e, s) = Defined(e, r)
                                       /\ Defined(e, s) => Eval(e, s) = Eval(e, r)
(* a node that matters is read *)
ReadsComplete == \A v \in Nodes :
  (\E s \in Assignments : LET r == [s EXCEPT ![v] = 1 - @] IN
       Defined(e, s) # Defined(e, r) \/ (Defined(e, s) /\ Eval(e, s) # Eval(e, r))) => v \in Reads(e)
Laws == \A s \in Assignments : Defined(e, s) =>
  LET x == Eval(e, s)
      N(a) == [op |-> "not", a |-> a]
      Bi(o, a, b) == [op |-> o, a |-> a, b |-> b]
      K(k) == [op |-> "const", c |-> k] IN
  /\ Eval(N(N(e)), s) = x
  /\ Eval(N(e), s) = Eval(Bi("xor", e, K(1)), s)
  /\ \A v \in Leaves : Defined(v, s) =>
       /\ Eval(Bi("add", e, v), s) = Eval(Bi("sub", e, v), s)
       /\ Eval(Bi("add", e, v), s) = Eval(Bi("ne", e, v), s)
       /\ Eval(Bi("mul", e, v), s) = Eval(Bi("and", e, v), s)
       /\ Eval(N(Bi("and", N(e), N(v))), s) = Eval(Bi("or", e, v), s)
       /\ Eval(Bi("le", e, v), s) = Eval(N(Bi("gt", e, v)), s)
       /\ Eval(Bi("ge", e, v), s) = Eval(N(Bi("lt", e, v)), s)
       /\ Eval(Bi("pow", e, v), s) = Eval(Bi("ge", e, v), s)
=============================================================================
