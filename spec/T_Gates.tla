------------------------------ MODULE T_Gates ------------------------------
(* Recorded gates: every column of the matrix, vectors swapped, constants, and *)
(* random unitaries in fixed point.                                            *)
EXTENDS Gates, Replay

Q(x) == <<x[1], x[2], x[3], x[4]>>
Mat(u) == [a \in 1..Len(u) |-> [b \in 1..Len(u[a]) |-> Q(u[a][b])]]
GateOf(e) == [name |-> e.name, n |-> e.n, i |-> e.i, j |-> e.j, u |-> IF e.name = "single" THEN Mat(e.u) ELSE <<>>]
Sparse(c) == {<<x[1], Q(x[2])>> : x \in ToSet(c)}

(* --- fixed point, one is Fix ------------------------------------------------*)
Fix == 10000
FMul(a, b) == <<(a[1] * b[1] - a[2] * b[2]) \div Fix, (a[1] * b[2] + a[2] * b[1]) \div Fix>>
FAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
FNeg(a) == <<-a[1], -a[2]>>
FConj(a) == <<a[1], -a[2]>>
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Bound(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE     \* evaluates v once
P2(x) == <<x[1], x[2]>>
RowDot(U, r, s) == FoldSeq(LAMBDA c, acc : Bound(FMul(U[r][c], FConj(U[s][c])), LAMBDA x : FAdd(acc, x)), <<0, 0>>, [c \in 1..Len(U) |-> c])
(* determinant by elimination: take the row with the largest first entry, *)
(* subtract its multiples from the others, and go on with what is left        *)
Size2(x) == x[1] * x[1] + x[2] * x[2]
FDiv(a, b) == LET k == IF Size2(b) > 100000000 THEN 1 ELSE 10       \* no larger than one, as |a| <= |b|
                  nn == (k * Size2(b)) \div Fix
                  re == a[1] * b[1] + a[2] * b[2]
                  im == a[2] * b[1] - a[1] * b[2] IN <<(k * re) \div nn, (k * im) \div nn>>
RECURSIVE Det(_, _)
Det(M, d) ==
  IF M = <<>> THEN d
  ELSE LET n == Len(M)
           p == CHOOSE i \in 1..n : \A j \in 1..n : Size2(M[j][1]) <= Size2(M[i][1])
           s == IF p % 2 = 1 THEN d ELSE FNeg(d) IN
       IF Size2(M[p][1]) < 10 * Fix THEN <<0, 0>>     \* singular
       ELSE Bound(TLCEval([k \in 1..(n - 1) |-> Bound(M[IF k < p THEN k ELSE k + 1], LAMBDA r :
                    Bound(FDiv(r[1], M[p][1]), LAMBDA q :
                      [c \in 1..(n - 1) |-> FAdd(r[c + 1], FNeg(FMul(q, M[p][c + 1])))]))]),
                  LAMBDA rest : Bound(FMul(s, M[p][1]), LAMBDA e : Det(rest, e)))

GInit(t) == 0
GStep(t, s, e) ==
  [st |-> s,
   bad |->
    CASE e.op = "gate" ->
           \* ks: the columns that were recorded
           Chk("shape", Len(e.cols) = Len(e.ks)) \cup
           (IF Len(e.cols) # Len(e.ks) THEN {}
            ELSE Chk("action-" \o e.name, \A x \in 1..Len(e.ks) : Sparse(e.cols[x]) = Column(GateOf(e), e.ks[x])))
      [] e.op = "vector" ->
           LET N == 2 ^ e.n
               psi == [k \in 0..(N - 1) |-> Q(e.psi[k + 1])] IN
           Chk("swap-vector", Len(e.res) = N /\ \A k \in 0..(N - 1) :
                 LET kk == (CHOOSE x \in Swap(k, e.n, e.i, e.j) : TRUE)[1] IN Q(e.res[kk + 1]) = psi[k])
      [] e.op = "constant" -> Chk("constant-" \o e.name, Mat(e.u) = Textbook(e.name))
      [] e.op = "su" ->
           Chk("unitary", Len(e.u) = 2 ^ e.n /\ \A r, q \in 1..Len(e.u) : Near(RowDot(e.u, r, q), IF r = q THEN <<Fix, 0>> ELSE <<0, 0>>, 100))
           \cup Chk("determinant", Near(Det(e.u, <<Fix, 0>>), <<Fix, 0>>, 500))
      [] e.op = "reject" -> Chk("accepted-invalid", ~e.ok)
      [] e.op = "failed" -> {"gate-failed"}]
=============================================================================
