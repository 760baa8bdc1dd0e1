-------------------------------- MODULE Data --------------------------------
(* Data sets: a sequence of (input, target) pairs, split into a training part  *)
(* followed by a test part; unitaries as monomial matrices: row i takes entry   *)
(* col[i] of the input times the imaginary unit to the power ph[i].             *)
EXTENDS Integers, Sequences, FiniteSets

TestCount(n, p, q) == (n * p) \div q
ToSet(s) == {s[i] : i \in 1..Len(s)}

(* xs, ys: the inputs and the targets of the two parts, as indices of pairs     *)
Counts(n, p, q, tr, te) == Len(te) = TestCount(n, p, q) /\ Len(tr) = n - TestCount(n, p, q)
NothingLost(n, tr, te) == ToSet(tr \o te) = 1..n /\ Len(tr \o te) = n
InOrder(tr, te) == \A i, j \in 1..Len(tr \o te) : i < j => (tr \o te)[i] < (tr \o te)[j]

(* --- unitaries -------------------------------------------------------------- *)
Apply(u, state) ==    \* a state is a sequence of <<entry, phase>>
  [i \in 1..Len(u.col) |-> <<state[u.col[i]][1], (state[u.col[i]][2] + u.ph[i]) % 4>>]
Basis(d) == [i \in 1..d |-> <<i, 0>>]
Central(u) == \A i \in 1..Len(u.col) : u.col[i] = i /\ u.ph[i] = u.ph[1]
(* flips the qubits in S of k (qubit 1 is the leftmost)                          *)
Bit(x, k, q) == (x \div (2 ^ (k - q))) % 2
Flip(S, k) ==
  LET to(x) == LET f[q \in 0..k] == IF q = 0 THEN x
                                    ELSE f[q - 1] + (IF q \in S THEN (IF Bit(x, k, q) = 1 THEN -(2 ^ (k - q)) ELSE 2 ^ (k - q)) ELSE 0)
               IN f[k] IN
  [col |-> [i \in 1..(2 ^ k) |-> to(i - 1) + 1], ph |-> [i \in 1..(2 ^ k) |-> 0]]
Noisy(u, S, k) == Apply(Flip(S, k), Apply(u, Basis(2 ^ k)))
=============================================================================
