----------------------------- MODULE MC_Adaptive ----------------------------
(* Design check: corrections can be replaced by adaptive measurements.  Node v *)
(* is measured at (-1)^sx angle + sz pi, where sx and sz are parities of the   *)
(* outcomes recorded for the nodes v corrects; only the outputs are corrected. *)
(* Every behaviour ends in the state of the branch where all outcomes are 0.   *)
EXTENDS MC_Pattern

Out1 == {x[1] : x \in {y \in ToSet(outs) : y[2] = 1}}
Sx(v) == Cardinality({u \in Out1 : g.f[u] = v}) % 2
Sz(v) == Cardinality({u \in Out1 : u # v /\ v \in g.nb[g.f[u]]}) % 2
Adapted(v) ==
  LET a == g.a[v]
      b == IF Sx(v) = 1 THEN <<-a[1], -a[2]>> ELSE a IN
  <<b[1] + 4 * Sz(v), b[2]>>

MeasureAdaptive ==
  \E v \in ToSet(reg) \ ToSet(g.O), o \in {0, 1} :
    /\ \A w \in ToSet(reg) \ ToSet(g.O) : ~(<<w, v>> \in Influence(g.nb, g.f))
    /\ psi' = ProjectRaw(psi, Len(reg), IndexIn(reg, v), Bra("XY", Adapted(v), <<0, 0>>, o))
    /\ reg' = SelectSeq(reg, LAMBDA y : y # v)
    /\ outs' = Append(outs, <<v, o>>)
    /\ UNCHANGED g

ASpec == Init /\ [][MeasureAdaptive]_vars

RECURSIVE Corrected(_, _, _)
Corrected(x, r, i) ==
  IF i > Len(r) THEN x
  ELSE LET y == IF Sx(r[i]) = 1 THEN ApplyX(x, Len(r), i) ELSE x
           z == IF Sz(r[i]) = 1 THEN ApplyZ(y, Len(r), i) ELSE y IN
       Corrected(z, r, i + 1)
AdaptiveDeterministic ==
  Finished => Parallel(Corrected(psi, reg, 1), g.want) /\ VecNorm(psi) = VecNorm(g.want)
(* the parities only read outcomes that were recorded before *)
ReadsThePast == \A v \in ToSet(reg) : \A u \in Out1 : u \notin ToSet(reg)
=============================================================================
