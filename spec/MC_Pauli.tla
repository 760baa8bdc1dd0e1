------------------------------ MODULE MC_Pauli ------------------------------
(* Design check of the Pauli calculus against matrices of Gaussian integers:   *)
(* a behaviour multiplies words together, one after the other; the matrix of   *)
(* the product is the product of the matrices up to a phase, two words         *)
(* anticommute exactly when their symplectic product is one, words and rows    *)
(* convert into each other, and brackets are products or zero.                 *)
EXTENDS Pauli
CONSTANTS N, Steps

GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Mat1(l) == CASE l = "I" -> <<<<<<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 0>>>>>>
             [] l = "X" -> <<<<<<0, 0>>, <<1, 0>>>>, <<<<1, 0>>, <<0, 0>>>>>>
             [] l = "Y" -> <<<<<<0, 0>>, <<0, -1>>>>, <<<<0, 1>>, <<0, 0>>>>>>
             [] l = "Z" -> <<<<<<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<-1, 0>>>>>>
Bit(i, n, q) == ((i - 1) \div (2 ^ (n - q))) % 2
RECURSIVE Entry(_, _, _, _)
Entry(w, i, j, q) == IF q = 0 THEN <<1, 0>>
                     ELSE GMul(Entry(w, i, j, q - 1), Mat1(w[q])[Bit(i, Len(w), q) + 1][Bit(j, Len(w), q) + 1])
MatOf(w) == [i \in 1..(2 ^ Len(w)) |-> [j \in 1..(2 ^ Len(w)) |-> Entry(w, i, j, Len(w))]]
RECURSIVE Dot(_, _, _, _, _)
Dot(A, B, i, j, k) == IF k = 0 THEN <<0, 0>> ELSE GAdd(Dot(A, B, i, j, k - 1), GMul(A[i][k], B[k][j]))
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> Dot(A, B, i, j, Len(A))]]
Scale(s, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> GMul(s, A[i][j])]]
Phases == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}

VARIABLES acc, mat, last, prev, n
vars == <<acc, mat, last, prev, n>>
Init == acc \in Words(N) /\ mat = MatOf(acc) /\ last = Identity(N) /\ prev = acc /\ n = 0
Multiply(w) == n < Steps /\ acc' = WordTimes(acc, w) /\ mat' = MatMul(mat, MatOf(w)) /\ last' = w /\ prev' = acc /\ n' = n + 1
Next == \E w \in Words(N) : Multiply(w)
Spec == Init /\ [][Next]_vars

Faithful == \E s \in Phases : mat = Scale(s, MatOf(acc))
RoundTrip == Word(Row(acc)) = acc /\ Len(Row(acc)) = 2 * N
Commute ==
  LET A == MatOf(prev)
      B == MatOf(last) IN
  IF Sym(prev, last) = 0 THEN MatMul(A, B) = MatMul(B, A) ELSE MatMul(A, B) = Scale(<<-1, 0>>, MatMul(B, A))
GroupLaws == /\ WordTimes(acc, acc) = Identity(N) /\ WordTimes(acc, last) = WordTimes(last, acc)
             /\ Sym(acc, last) = Sym(last, acc) /\ Sym(WordTimes(acc, prev), last) = (Sym(acc, last) + Sym(prev, last)) % 2
=============================================================================
