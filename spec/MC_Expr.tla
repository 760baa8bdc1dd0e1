------------------------------- MODULE MC_Expr ------------------------------
(* Design check: averages over stabilizer states are averages over Haar       *)
(* random states.  For every matrix m, (N + 1) N times the average of          *)
(* |<s|m|s>|^2 is |tr m|^2 + tr m m^dagger.  And histograms lose no sample.    *)
EXTENDS Expr

CONSTANTS K, Entries

EntriesA == {Zero, One, Im, <<0, 1, 0, 0>>, <<-1, 0, 1, 0>>}
EntriesB == {Zero, One, <<0, 1, 0, 0>>}

VARIABLES m, h
vars == <<m, h>>
N == 2 ^ K
Designed == TLCEval(Design(K))

Apply(a, v) == [i \in 1..N |-> FoldLeft(LAMBDA s, j : Add(s, Mul(a[i][j], v[j])), Zero, [j \in 1..N |-> j])]
(* matrices: all of them for one qubit, products and sparse ones for two *)
Mats == IF K = 1 THEN [1..2 -> [1..2 -> Entries]]
        ELSE {[i \in 1..4 |-> [j \in 1..4 |-> IF j = p[i] THEN d[i] ELSE IF i = 1 THEN d[j] ELSE Zero]] :
                p \in [1..4 -> 1..4], d \in [1..4 -> Entries]}
Init == m \in Mats /\ h \in {<<>>}
Grow == Len(h) < 3 /\ (\A i, j \in 1..N : m[i][j] = Zero)
        /\ \E x \in {0, 1, 7, 8, 15, 16} : h' = Append(h, x)
        /\ UNCHANGED m
Spec == Init /\ [][Grow]_vars

Trace == FoldLeft(LAMBDA s, i : Add(s, m[i][i]), Zero, [i \in 1..N |-> i])
Frobenius == FoldLeft(LAMBDA s, i : AddS(s, VecNorm(m[i])), <<0, 0>>, [i \in 1..N |-> i])
(* stabilizer states here have norm 1, 2 or 4: weigh them to norm 4 *)
Term(v) == LET w == VecNorm(v)[1] IN ScaleS((4 \div w) * (4 \div w), NormSq(Inner(v, Apply(m, v))))
TwoDesign ==
  h = <<>> =>
  LET tot == FoldLeft(LAMBDA s, v : AddS(s, Term(v)), <<0, 0>>, Designed) IN
  /\ Len(Designed) = (IF K = 1 THEN 6 ELSE 60)
  /\ ScaleS(N * (N + 1), tot) = ScaleS(16 * Len(Designed), AddS(NormSq(Trace), Frobenius))
NoneLost ==
  \A bins \in 1..5 : SumSeq(Counts(h, 16, bins)) = Len(h)
=============================================================================
