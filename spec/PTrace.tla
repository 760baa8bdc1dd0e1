------------------------------- MODULE PTrace ------------------------------
(* Partial traces of square matrices of Gaussian integers <<re, im>>.          *)
(* Qubit 0 is the most significant.                                            *)
EXTENDS Pattern

GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], -a[2]>>

BitOf(k, q, n) == Bit(k, q + 1, n)
Kept(n, S) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA q : q \notin S)

RECURSIVE Spread(_, _, _, _)
Spread(k, qs, n, i) ==   \* index with the bits of k on the qubits qs, zero elsewhere
  IF i > Len(qs) THEN 0
  ELSE Bit(k, i, Len(qs)) * (2 ^ (n - 1 - qs[i])) + Spread(k, qs, n, i + 1)

PartialTrace(rho, n, S) ==
  LET kept == Kept(n, S)
      out == Kept(n, ToSet(kept))
      m == Len(kept)
      kk == TLCEval([a \in 0..(2 ^ m - 1) |-> Spread(a, kept, n, 1)])
      ee == TLCEval([x \in 0..(2 ^ (n - m) - 1) |-> Spread(x, out, n, 1)]) IN
  TLCEval([a \in 1..(2 ^ m) |-> [b \in 1..(2 ^ m) |->
     FoldSet(LAMBDA x, acc : GAdd(acc, rho[kk[a - 1] + ee[x] + 1][kk[b - 1] + ee[x] + 1]), <<0, 0>>, 0..(2 ^ (n - m) - 1))]])

Outer(psi) == TLCEval([a \in 1..Len(psi) |-> [b \in 1..Len(psi) |-> GMul(psi[a], GConj(psi[b]))]])
TraceOf(rho) == FoldSet(LAMBDA a, acc : GAdd(acc, rho[a][a]), <<0, 0>>, 1..Len(rho))

(* the vector with phi on the qubits rest and chi on the qubits idx *)
Product(phi, rest, chi, idx) ==
  LET n == Len(rest) + Len(idx)
      part(k, qs) == LET f[i \in 0..Len(qs)] == IF i = 0 THEN 0 ELSE 2 * f[i - 1] + BitOf(k, qs[i], n) IN f[Len(qs)] IN
  TLCEval([q \in 1..(2 ^ n) |-> GMul(phi[part(q - 1, rest) + 1], chi[part(q - 1, idx) + 1])])

(* positions, among the qubits left, of the qubits T once S is gone *)
Positions(n, S, T) == LET kept == Kept(n, S) IN {i - 1 : i \in {j \in 1..Len(kept) : kept[j] \in T}}
=============================================================================
