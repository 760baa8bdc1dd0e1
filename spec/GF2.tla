--------------------------------- MODULE GF2 -------------------------------
(* Systems of linear equations over GF(2): rows as sets of columns.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RowSet(row) == {j \in 1..Len(row) : row[j] = 1}
(* a system: a sequence of [s |-> set of columns, b |-> right-hand side] *)
System(A, b) == [i \in 1..Len(A) |-> [s |-> RowSet(A[i]), b |-> b[i]]]
Holds(row, x) == Cardinality({j \in row.s : x[j] = 1}) % 2 = row.b
Satisfies(sys, x) == \A i \in 1..Len(sys) : Holds(sys[i], x)

Plus(r, q) == [s |-> (r.s \ q.s) \cup (q.s \ r.s), b |-> (r.b + q.b) % 2]

(* elimination: take a row with a column in it, clear that column elsewhere *)
RECURSIVE Solvable(_)
Solvable(sys) ==
  LET busy == {i \in 1..Len(sys) : sys[i].s # {}} IN
  IF busy = {} THEN \A i \in 1..Len(sys) : sys[i].b = 0
  ELSE LET p == CHOOSE i \in busy : TRUE
           c == CHOOSE j \in sys[p].s : TRUE
           rest == SelectSeq([i \in 1..Len(sys) |-> [row |-> sys[i], at |-> i]], LAMBDA r : r.at # p) IN
       Solvable(TLCEval([i \in 1..Len(rest) |-> IF c \in rest[i].row.s THEN Plus(rest[i].row, sys[p]) ELSE rest[i].row]))
=============================================================================
