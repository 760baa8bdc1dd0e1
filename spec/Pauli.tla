-------------------------------- MODULE Pauli -------------------------------
(* Pauli operators up to phase.  A word is a sequence of letters; an operator *)
(* object is a sequence of words of the same length.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Letters == {"I", "X", "Y", "Z"}
XBit(l) == IF l \in {"X", "Y"} THEN 1 ELSE 0
ZBit(l) == IF l \in {"Z", "Y"} THEN 1 ELSE 0
Letter(x, z) == CASE x = 0 /\ z = 0 -> "I" [] x = 1 /\ z = 0 -> "X" [] x = 0 /\ z = 1 -> "Z" [] OTHER -> "Y"
Times(l, m) == Letter((XBit(l) + XBit(m)) % 2, (ZBit(l) + ZBit(m)) % 2)
Anti(l, m) == (XBit(l) * ZBit(m) + ZBit(l) * XBit(m)) % 2

Row(w) == [i \in 1..(2 * Len(w)) |-> IF i <= Len(w) THEN XBit(w[i]) ELSE ZBit(w[i - Len(w)])]
Word(r) == LET n == Len(r) \div 2 IN [i \in 1..n |-> Letter(r[i], r[i + n])]
Matrix(o) == [i \in 1..Len(o) |-> Row(o[i])]

IsWord(w) == Len(w) > 0 /\ \A i \in 1..Len(w) : w[i] \in Letters
IsOp(o) == Len(o) > 0 /\ \A i \in 1..Len(o) : IsWord(o[i]) /\ Len(o[i]) = Len(o[1])
IsMatrix(r) == /\ Len(r) > 0 /\ Len(r[1]) > 0 /\ Len(r[1]) % 2 = 0
               /\ \A i \in 1..Len(r) : Len(r[i]) = Len(r[1]) /\ \A j \in 1..Len(r[i]) : r[i][j] \in {0, 1}

WordTimes(v, w) == [i \in 1..Len(v) |-> Times(v[i], w[i])]
RECURSIVE SumAnti(_, _, _)
SumAnti(v, w, i) == IF i = 0 THEN 0 ELSE (Anti(v[i], w[i]) + SumAnti(v, w, i - 1)) % 2
Sym(v, w) == SumAnti(v, w, Len(v))        \* 1 when they anticommute
Identity(n) == [i \in 1..n |-> "I"]
Words(n) == [1..n -> Letters]

Prod(o, p) == [i \in 1..Len(o) |-> WordTimes(o[i], p[i])]
SymMat(o, p) == [i \in 1..Len(o) |-> [j \in 1..Len(p) |-> Sym(o[i], p[j])]]
Has(o, p) == \A i \in 1..Len(p) : \E j \in 1..Len(o) : o[j] = p[i]
Sub(o, idx) == [i \in 1..Len(o) |-> [k \in 1..Len(idx) |-> o[i][idx[k] + 1]]]

(* graph-state stabilizers: nodes in order, adj[v] the neighbours *)
StabWord(order, nb, v) == [i \in 1..Len(order) |-> IF order[i] = v THEN "X" ELSE IF order[i] \in nb[v] THEN "Z" ELSE "I"]
Stabs(order, nb) == [i \in 1..Len(order) |-> StabWord(order, nb, order[i])]

(* the Lie algebra (up to phases) generated by a set of words *)
Nested(S) == S \cup {WordTimes(p[1], p[2]) : p \in {q \in S \X S : Sym(q[1], q[2]) = 1}}
RECURSIVE Bracket(_)
Bracket(S) == LET T == Nested(S) IN IF T = S THEN S ELSE Bracket(T)

(* the group generated by a set of words *)
RECURSIVE Group(_)
Group(gens) ==
  IF gens = {} THEN {} ELSE
  LET g == CHOOSE g \in gens : TRUE
      rest == Group(gens \ {g}) IN
  IF rest = {} THEN {g, Identity(Len(g))} ELSE rest \cup {WordTimes(g, w) : w \in rest}
=============================================================================
