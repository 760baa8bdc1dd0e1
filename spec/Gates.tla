-------------------------------- MODULE Gates ------------------------------
(* Gates as actions on the basis states of n qubits; qubit 0 is the most       *)
(* significant bit.  A column of a gate is a set of <<row, amplitude>> with     *)
(* amplitudes in Z[w].                                                         *)
EXTENDS Pattern

BitOf(k, q, n) == Bit(k, q + 1, n)
WithBit(k, q, n, b) == k + (b - BitOf(k, q, n)) * (2 ^ (n - 1 - q))

Swap(k, n, i, j) == {<<WithBit(WithBit(k, i, n, BitOf(k, j, n)), j, n, BitOf(k, i, n)), One>>}
CZ(k, n, i, j) == {<<k, IF BitOf(k, i, n) = 1 /\ BitOf(k, j, n) = 1 THEN Neg(One) ELSE One>>}
CNOT(k, n, i, j) == {<<WithBit(k, j, n, (BitOf(k, j, n) + BitOf(k, i, n)) % 2), One>>}
(* u: 2 x 2, u[row][column] *)
Single(k, n, i, u) ==
  {x \in {<<WithBit(k, i, n, b), u[b + 1][BitOf(k, i, n) + 1]>> : b \in {0, 1}} : x[2] # Zero}

Column(g, k) ==
  CASE g.name = "swap" -> Swap(k, g.n, g.i, g.j)
    [] g.name = "cz" -> CZ(k, g.n, g.i, g.j)
    [] g.name = "cnot" -> CNOT(k, g.n, g.i, g.j)
    [] g.name = "single" -> Single(k, g.n, g.i, g.u)

(* vectors as functions from 0..2^n-1 *)
Apply(g, psi) ==
  LET N == 2 ^ g.n
      cols == [k \in 0..(N - 1) |-> Column(g, k)] IN
  TLCEval([r \in 0..(N - 1) |->
     LET hits == {<<k, x[2]>> : k \in 0..(N - 1), x \in {y \in UNION {cols[q] : q \in 0..(N - 1)} : y[1] = r}}
         real == {h \in hits : <<r, h[2]>> \in cols[h[1]]} IN
     FoldSet(LAMBDA h, acc : Add(acc, Mul(h[2], psi[h[1]])), Zero, real)])

(* textbook one- and two-qubit gates; H is scaled by the square root of two *)
Sqrt2 == <<0, 1, 0, -1>>
W == <<0, 1, 0, 0>>
Textbook(name) ==
  CASE name = "PauliX" -> <<<<Zero, One>>, <<One, Zero>>>>
    [] name = "PauliY" -> <<<<Zero, Neg(Im)>>, <<Im, Zero>>>>
    [] name = "PauliZ" -> <<<<One, Zero>>, <<Zero, Neg(One)>>>>
    [] name = "HGate" -> <<<<One, One>>, <<One, Neg(One)>>>>
    [] name = "SGate" -> <<<<One, Zero>>, <<Zero, Im>>>>
    [] name = "TGate" -> <<<<One, Zero>>, <<Zero, W>>>>
    [] name = "CNOT" -> <<<<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Zero>>, <<Zero, Zero, Zero, One>>, <<Zero, Zero, One, Zero>>>>
    [] name = "SWAP" -> <<<<One, Zero, Zero, Zero>>, <<Zero, Zero, One, Zero>>, <<Zero, One, Zero, Zero>>, <<Zero, Zero, Zero, One>>>>
    [] name = "CSGate" -> <<<<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Zero>>, <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, Im>>>>
=============================================================================
