------------------------------ MODULE MC_Gates -----------------------------
(* Laws of the gates on every basis state and every pair of qubits.            *)
EXTENDS Gates
CONSTANT N
VARIABLES n, i, j, k
vars == <<n, i, j, k>>
Init == /\ n \in 1..N /\ i \in 0..(n - 1) /\ j \in 0..(n - 1) /\ k \in 0..(2 ^ n - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Basis == [q \in 0..(2 ^ n - 1) |-> IF q = k THEN One ELSE Zero]
G(name, a, b) == [name |-> name, n |-> n, i |-> a, j |-> b]
U(u, a) == [name |-> "single", n |-> n, i |-> a, u |-> u]
A2(g, h) == Apply(g, Apply(h, Basis))
A3(g, h, f) == Apply(g, Apply(h, Apply(f, Basis)))
Twice(v) == [q \in DOMAIN v |-> Scale(2, v[q])]

Involutions == i # j => \A g \in {"swap", "cz", "cnot"} : A2(G(g, i, j), G(g, i, j)) = Basis
Symmetric == i # j => \A g \in {"swap", "cz"} : Apply(G(g, i, j), Basis) = Apply(G(g, j, i), Basis)
ThreeCnots == i # j => A3(G("cnot", i, j), G("cnot", j, i), G("cnot", i, j)) = Apply(G("swap", i, j), Basis)
CnotIsHCzH == i # j => A3(U(Textbook("HGate"), j), G("cz", i, j), U(Textbook("HGate"), j)) = Twice(Apply(G("cnot", i, j), Basis))
Others == i # j => \A g \in {"swap", "cz", "cnot"} : \A x \in Column(G(g, i, j), k) :
            \A q \in (0..(n - 1)) \ {i, j} : BitOf(x[1], q, n) = BitOf(k, q, n)
Squares ==
  /\ A2(U(Textbook("TGate"), i), U(Textbook("TGate"), i)) = Apply(U(Textbook("SGate"), i), Basis)
  /\ A2(U(Textbook("SGate"), i), U(Textbook("SGate"), i)) = Apply(U(Textbook("PauliZ"), i), Basis)
  /\ A3(U(Textbook("HGate"), i), U(Textbook("PauliX"), i), U(Textbook("HGate"), i)) = Twice(Apply(U(Textbook("PauliZ"), i), Basis))
  /\ A2(U(Textbook("PauliX"), i), U(Textbook("PauliZ"), i)) = [q \in 0..(2 ^ n - 1) |-> Mul(Neg(Im), Apply(U(Textbook("PauliY"), i), Basis)[q])]
TwoQubit == n = 2 /\ i = 0 /\ j = 1 =>
  \A g \in {<<"cnot", "CNOT">>, <<"swap", "SWAP">>} : Column(G(g[1], 0, 1), k) = {<<r, One>> : r \in {q \in 0..3 : Textbook(g[2])[q + 1][k + 1] = One}}
SinglesCommute == i # j => A2(U(Textbook("TGate"), i), U(Textbook("HGate"), j)) = A2(U(Textbook("HGate"), j), U(Textbook("TGate"), i))
=============================================================================
