-------------------------------- MODULE T_Born ------------------------------
(* Evaluates the random outcomes of recorded patterns: the tree of outcomes a *)
(* sampled run can record with their weights, and the mixture an averaged run *)
(* leaves with the probabilities it records.                                   *)
EXTENDS T_Sim, Born

BrasOf(r, v, outs) == LET e == Effective(r, v, outs) IN
  [z |-> e.p = "Z", bras |-> <<Bra(e.p, e.t, e.u, 0), Bra(e.p, e.t, e.u, 1)>>]
Nodes(r) == [i \in 1..r.n |-> i - 1]

(* order: the nodes measured.  outs: <<node, outcome>> so far *)
RECURSIVE Tree(_, _, _, _)
Tree(r, psi, reg, outs) ==
  IF Len(outs) = Len(r.sched) THEN <<>>
  ELSE LET v == r.sched[Len(outs) + 1]
           m == BrasOf(r, v, outs)
           n == Len(reg)
           j == IndexIn(reg, v)
           next == SelectSeq(reg, LAMBDA x : x # v)
           p0 == ProjectRaw(psi, n, j, m.bras[1])
           p1 == ProjectRaw(psi, n, j, m.bras[2])
           w0 == VecNorm(p0)
           w1 == VecNorm(p1)
           here == [pre |-> [i \in 1..Len(outs) |-> outs[i][2]], v |-> v, z |-> m.z, w |-> <<w0, w1>>]
           zero == IF w0 = <<0, 0>> THEN <<>> ELSE Tree(r, Reduced(p0), next, Append(outs, <<v, 0>>))
           one == IF w1 = <<0, 0>> \/ (~m.z /\ w0 # <<0, 0>>) THEN <<>>
                  ELSE Tree(r, Reduced(p1), next, Append(outs, <<v, 1>>)) IN
       <<here>> \o zero \o one

Averaged(r, in) ==
  LET ms == [i \in 1..Len(r.sched) |-> LET b == BrasOf(r, r.sched[i], <<>>) IN [v |-> r.sched[i], z |-> b.z, bras |-> b.bras]]
      x == AverageAll(<<Resource(Nodes(r), EdgesOf(r), r.I, in)>>, Nodes(r), ms, 1, <<>>) IN
  [parts |-> [i \in 1..Len(x.xs) |-> Permute(x.xs[i], x.reg, QOut(r))], recs |-> x.recs]

BValue(e) ==
  CASE e.kind = "tree" -> [tree |-> Tree(e.a, Resource(Nodes(e.a), EdgesOf(e.a), e.a.I, e.in), Nodes(e.a), <<>>)]
    [] e.kind = "average" -> Averaged(e.a, e.in)

BInit(t) == 0
BStep(t, s, e) ==
  LET x == BValue(e) IN
  [st |-> IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x)) THEN s + 1 ELSE s,
   bad |-> {}]
=============================================================================
