------------------------------- MODULE Outcome ------------------------------
(* Expressions over measurement outcomes.  An expression is a tree:           *)
(*   [op |-> "node", v |-> node]  [op |-> "const", c |-> integer]             *)
(*   [op |-> name, a |-> tree, b |-> tree]  [op |-> "not", a |-> tree]        *)
(*   [op |-> "lift", a |-> tree]   a tree read through a plain function       *)
(*   [op |-> "mconst", c |-> integer]  a constant made an outcome, modulo two *)
(*   [op |-> "wrap", a |-> tree]   an outcome made of an outcome              *)
(* It evaluates to the value of the expression modulo two: every intermediate *)
(* result is reduced, as results of measurements are.                         *)
EXTENDS Integers, Sequences, FiniteSets

B(x) == IF x THEN 1 ELSE 0

(* defined: division, remainder and negative powers need a non-zero divisor *)
RECURSIVE Defined(_, _)
RECURSIVE Eval(_, _)

Eval(e, s) ==
  CASE e.op = "node" -> s[e.v]
    [] e.op = "const" -> e.c
    [] e.op = "not" -> 1 - B(Eval(e.a, s) # 0)
    [] e.op \in {"lift", "wrap"} -> Eval(e.a, s)
    [] e.op = "mconst" -> e.c % 2
    [] OTHER ->
       LET x == Eval(e.a, s)
           y == Eval(e.b, s) IN
       CASE e.op = "add" -> (x + y) % 2
         [] e.op = "sub" -> (x - y) % 2
         [] e.op = "mul" -> (x * y) % 2
         [] e.op = "xor" -> (x + y) % 2
         [] e.op = "and" -> B(x # 0 /\ y % 2 # 0)
         [] e.op = "or" -> IF x # 0 THEN 1 ELSE y % 2
         [] e.op = "eq" -> B(x = y)
         [] e.op = "ne" -> B(x # y)
         [] e.op = "lt" -> B(x < y)
         [] e.op = "le" -> B(x <= y)
         [] e.op = "gt" -> B(x > y)
         [] e.op = "ge" -> B(x >= y)
         [] e.op = "pow" -> IF y = 0 THEN 1 ELSE (x ^ y) % 2
         [] e.op = "mod" -> (x % y) % 2
         [] e.op = "floordiv" -> (x \div y) % 2
         [] e.op = "truediv" -> (x \div y) % 2

Defined(e, s) ==
  CASE e.op = "node" -> e.v \in DOMAIN s
    [] e.op \in {"const", "mconst"} -> TRUE
    [] e.op \in {"not", "lift", "wrap"} -> Defined(e.a, s)
    [] OTHER -> /\ Defined(e.a, s) /\ Defined(e.b, s)
                /\ e.op \in {"mod", "floordiv", "truediv"} => Eval(e.b, s) # 0
                /\ e.op = "pow" => Eval(e.b, s) >= 0

EvalBool(e, s) == Eval(e, s) # 0

RECURSIVE Reads(_)
Reads(e) ==
  CASE e.op = "node" -> {e.v}
    [] e.op \in {"const", "mconst"} -> {}
    [] e.op \in {"not", "lift", "wrap"} -> Reads(e.a)
    [] OTHER -> Reads(e.a) \cup Reads(e.b)
=============================================================================
