-------------------------------- MODULE Born --------------------------------
(* Random outcomes of a pattern.  A node read in the Z basis gets outcome 1   *)
(* with the probability the state left by the earlier measurements gives it;  *)
(* any other node gets outcome 0 unless that is impossible.  If outcomes are  *)
(* averaged instead, a node read in the Z basis is traced out: the state is   *)
(* a mixture, kept as the sequence of its unnormalised parts.                  *)
EXTENDS Pattern

ProjectRaw(x, n, j, bra) ==
  LET low == 2 ^ (n - j) IN
  TLCEval([q \in 1..(2 ^ (n - 1)) |->
     LET k == q - 1
         k0 == (k \div low) * (2 * low) + (k % low) IN
     Add(Mul(bra[1], x[k0 + 1]), Mul(bra[2], x[k0 + low + 1]))])

AddW(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Weight(xs) == FoldLeft(LAMBDA acc, x : AddW(acc, VecNorm(x)), <<0, 0>>, xs)
Possible(xs) == SelectSeq(xs, LAMBDA x : ~IsZero(x))

(* all the parts divided by what divides them all *)
Together(xs) ==
  IF xs = <<>> THEN xs
  ELSE LET m == Len(xs[1])
           y == Reduced(FlattenSeq(xs)) IN
       TLCEval([i \in 1..Len(xs) |-> [q \in 1..m |-> y[(i - 1) * m + q]]])

(* an average measurement of qubit j of n: both outcomes happen *)
Split(xs, n, j, bra0, bra1) ==
  Possible([i \in 1..Len(xs) |-> ProjectRaw(xs[i], n, j, bra0)] \o [i \in 1..Len(xs) |-> ProjectRaw(xs[i], n, j, bra1)])
Ones(xs, n, j, bra1) == Weight([i \in 1..Len(xs) |-> ProjectRaw(xs[i], n, j, bra1)])

(* ms[i] = [v |-> node, z |-> averaged?, bras |-> <<of 0, of 1>>].  The result has what is recorded *)
(* for each node: the weights of outcome one and of both, or the outcome and zero.  *)
RECURSIVE AverageAll(_, _, _, _, _)
AverageAll(xs, reg, ms, i, recs) ==
  IF i > Len(ms) THEN [xs |-> xs, reg |-> reg, recs |-> recs]
  ELSE LET n == Len(reg)
           j == IndexIn(reg, ms[i].v)
           next == SelectSeq(reg, LAMBDA x : x # ms[i].v)
           only(o) == TLCEval([q \in 1..Len(xs) |-> ProjectRaw(xs[q], n, j, ms[i].bras[o + 1])])
           w0 == Weight(only(0))
           w1 == Weight(only(1)) IN
       IF ms[i].z
         THEN AverageAll(Together(Split(xs, n, j, ms[i].bras[1], ms[i].bras[2])), next, ms, i + 1,
                         Append(recs, [v |-> ms[i].v, z |-> TRUE, w |-> <<w0, w1>>]))
         ELSE AverageAll(Together(Possible(only(IF w0 = <<0, 0>> THEN 1 ELSE 0))), next, ms, i + 1,
                         Append(recs, [v |-> ms[i].v, z |-> FALSE, w |-> <<w0, w1>>]))

Density(xs) ==
  LET d == Len(xs[1]) IN
  TLCEval([a \in 1..d |-> [b \in 1..d |->
     FoldLeft(LAMBDA acc, x : Add(acc, Mul(x[a], Conj(x[b]))), Zero, xs)]])
=============================================================================
