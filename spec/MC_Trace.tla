------------------------------ MODULE MC_Trace -----------------------------
(* Laws of partial traces on all matrix units, which span all matrices.        *)
EXTENDS PTrace
CONSTANT N
VARIABLES n, r, c, S
vars == <<n, r, c, S>>
Init == /\ n \in 1..N /\ r \in 0..(2 ^ n - 1) /\ c \in 0..(2 ^ n - 1) /\ S \in SUBSET (0..(n - 1))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
E == [a \in 1..(2 ^ n) |-> [b \in 1..(2 ^ n) |-> IF a = r + 1 /\ b = c + 1 THEN <<1, 0>> ELSE <<0, 0>>]]
Nothing == PartialTrace(E, n, {}) = E
Everything == PartialTrace(E, n, 0..(n - 1)) = <<<<TraceOf(E)>>>>
KeepsTrace == TraceOf(PartialTrace(E, n, S)) = TraceOf(E)
InSteps == \A T \in SUBSET ((0..(n - 1)) \ S) :
  PartialTrace(PartialTrace(E, n, S), n - Cardinality(S), Positions(n, S, T)) = PartialTrace(E, n, S \cup T)
(* matrix units factor: the trace is the unit of the kept bits if the others agree *)
Units ==
  LET m == n - Cardinality(S)
      kept == Kept(n, S)
      P == PartialTrace(E, n, S) IN
  IF \A q \in S : BitOf(r, q, n) = BitOf(c, q, n)
    THEN \E a, b \in 1..(2 ^ m) :
           /\ \A i \in 1..m : Bit(a - 1, i, m) = BitOf(r, kept[i], n) /\ Bit(b - 1, i, m) = BitOf(c, kept[i], n)
           /\ \A x, y \in 1..(2 ^ m) : P[x][y] = IF x = a /\ y = b THEN <<1, 0>> ELSE <<0, 0>>
    ELSE \A x, y \in 1..(2 ^ m) : P[x][y] = <<0, 0>>
=============================================================================
