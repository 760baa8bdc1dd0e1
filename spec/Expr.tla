-------------------------------- MODULE Expr --------------------------------
(* Expressivity of circuits: how the fidelities of random inputs with the     *)
(* circuit's output at random angles are distributed, against the fidelities  *)
(* of Haar random states.                                                     *)
EXTENDS Cost

(* --- averages over random inputs and angles, exactly ------------------------*)
(* Stabilizer states average quadratic polynomials as Haar random states do,   *)
(* and in a pattern with flow two opposite values average an angle.            *)
Stab1 == <<<<One, Zero>>, <<Zero, One>>, <<One, One>>, <<One, Neg(One)>>, <<One, Im>>, <<One, Neg(Im)>>>>
Products2 == {Kron(Stab1[i], Stab1[j]) : i, j \in 1..6}
(* products, and the two-qubit entangled ones: CZ or SWAP-like images of them    *)
CZ2(v) == <<v[1], v[2], v[3], Neg(v[4])>>
H2(v) == <<Add(v[1], v[2]), Sub(v[1], v[2]), Add(v[3], v[4]), Sub(v[3], v[4])>>
S1x(v) == <<v[1], v[2], Mul(Im, v[3]), Mul(Im, v[4])>>
S2x(v) == <<v[1], Mul(Im, v[2]), v[3], Mul(Im, v[4])>>
Bell == H2(CZ2(<<One, One, One, One>>))
Normal(v) ==  \* the representative of a ray whose first entry is a positive integer
  LET i == CHOOSE i \in 1..4 : v[i] # Zero /\ \A j \in 1..(i - 1) : v[j] = Zero IN
  Reduced([j \in 1..4 |-> Mul(Conj(v[i]), v[j])])
RECURSIVE Closed(_)
Closed(S) ==
  LET T == S \cup {Normal(CZ2(v)) : v \in S} \cup {Normal(H2(v)) : v \in S}
             \cup {Normal(S1x(v)) : v \in S} \cup {Normal(S2x(v)) : v \in S} IN
  IF T = S THEN S ELSE Closed(T)
Stab2 == SetToSeq(Closed({Normal(v) : v \in Products2}))
Design(k) == IF k = 1 THEN Stab1 ELSE Stab2

(* --- the Haar density of fidelities: <<numerator, denominator>> at a/b ---------*)
HaarDensity(a, b, n) == <<(n - 1) * (IF n = 2 THEN 1 ELSE (b - a) ^ (n - 2)), IF n = 2 THEN 1 ELSE b ^ (n - 2)>>

(* samples are given as integers out of unit; bins are equal, the last one closed *)
BinOf(x, unit, bins) == IF x >= unit THEN bins ELSE ((x * bins) \div unit) + 1
Counts(xs, unit, bins) ==
  [i \in 1..bins |-> Cardinality({j \in 1..Len(xs) : BinOf(xs[j], unit, bins) = i})]
=============================================================================
