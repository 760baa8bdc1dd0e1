------------------------------ MODULE MC_Pattern ----------------------------
(* Design check: a pattern with a causal flow is deterministic.  Nodes are    *)
(* measured one by one in any order the flow allows, with any outcome; an     *)
(* outcome 1 at v is corrected by X on f(v) and Z on its other neighbours.    *)
(* Every complete behaviour ends in the state of the branch where all the     *)
(* outcomes are zero, with the same probability; and the state through any    *)
(* window that is large enough is that one too.                               *)
EXTENDS OpenGraph, Pattern

CONSTANTS N, K, AngleSet

Angles3 == {<<0, 0>>, <<1, 0>>, <<-2, 1>>}
Angles2 == {<<2, 0>>, <<3, 1>>}

VARIABLES g, psi, reg, outs
vars == <<g, psi, reg, outs>>

V == 0..(N - 1)
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
NbOf(es) == [v \in V |-> {w \in V : {v, w} \in es}]
Seqs(k) == {s \in [1..k -> V] : \A i, j \in 1..k : i < j => s[i] < s[j]}

Input(k) == [i \in 1..(2 ^ k) |-> <<i, 1 - i, 2, 0>>]
Directed(es) == {<<Min(e), Max(e)>> : e \in es}
FlowFun(nb, I, O) ==
  CHOOSE f \in [V \ O -> V \ I] :
     /\ \A v \in V \ O : f[v] \in nb[v]
     /\ \A v, w \in V \ O : f[v] = f[w] => v = w
     /\ Acyclic(V, Influence(nb, f))

(* projecting without dividing by common factors keeps probabilities comparable *)
ProjectRaw(x, n, j, bra) ==
  LET low == 2 ^ (n - j) IN
  TLCEval([q \in 1..(2 ^ (n - 1)) |->
     LET k == q - 1
         k0 == (k \div low) * (2 * low) + (k % low) IN
     Add(Mul(bra[1], x[k0 + 1]), Mul(bra[2], x[k0 + low + 1]))])

RECURSIVE ZeroBranch(_, _, _, _)
ZeroBranch(x, r, todo, a) ==
  IF todo = {} THEN x
  ELSE LET v == CHOOSE v \in todo : TRUE
           j == IndexIn(r, v) IN
       ZeroBranch(ProjectRaw(x, Len(r), j, Bra("XY", a[v], <<0, 0>>, 0)),
                  SelectSeq(r, LAMBDA y : y # v), todo \ {v}, a)

Init ==
  \E es \in SUBSET AllEdges, k \in K :
  \E I \in Seqs(k), O \in Seqs(k) :
  \E a \in [V \ ToSet(O) -> AngleSet] :
    LET nb == NbOf(es)
        r0 == [i \in 1..N |-> i - 1]
        x0 == Resource(r0, Directed(es), I, Input(k)) IN
    /\ HasFlow(nb, ToSet(I), ToSet(O))
    /\ g = [es |-> es, nb |-> nb, I |-> I, O |-> O, a |-> a, f |-> FlowFun(nb, ToSet(I), ToSet(O)),
            ly |-> FlowLayers(nb, ToSet(I), ToSet(O)),
            want |-> ZeroBranch(x0, r0, V \ ToSet(O), a)]
    /\ psi = x0
    /\ reg = r0
    /\ outs = <<>>

RECURSIVE ApplyZs(_, _, _)
ApplyZs(x, r, S) ==
  IF S = {} THEN x
  ELSE LET v == CHOOSE v \in S : TRUE IN ApplyZs(ApplyZ(x, Len(r), IndexIn(r, v)), r, S \ {v})

Measure ==
  \E v \in ToSet(reg) \ ToSet(g.O), o \in {0, 1} :
    /\ \A w \in ToSet(reg) \ ToSet(g.O) : ~(<<w, v>> \in Influence(g.nb, g.f))
    /\ LET left == ProjectRaw(psi, Len(reg), IndexIn(reg, v), Bra("XY", g.a[v], <<0, 0>>, o))
           r2 == SelectSeq(reg, LAMBDA y : y # v)
           fixed == IF o = 0 THEN left
                    ELSE ApplyZs(ApplyX(left, Len(r2), IndexIn(r2, g.f[v])), r2, g.nb[g.f[v]] \ {v}) IN
       /\ reg' = r2
       /\ psi' = fixed
       /\ outs' = Append(outs, <<v, o>>)
    /\ UNCHANGED g

Spec == Init /\ [][Measure]_vars

Finished == ToSet(reg) = ToSet(g.O)
Deterministic == Finished => Parallel(psi, g.want) /\ VecNorm(psi) = VecNorm(g.want)
(* corrections only touch nodes that are still there *)
CorrectionsAlive ==
  \A v \in ToSet(reg) \ ToSet(g.O) : g.f[v] \in ToSet(reg)

(* the order of a finished behaviour, run with zero outcomes through a window *)
ZeroSteps(order) == [i \in 1..Len(order) |-> [v |-> order[i], bra |-> Bra("XY", g.a[order[i]], <<0, 0>>, 0)]]
WindowsAgree ==
  Finished =>
    LET order == [i \in 1..Len(outs) |-> outs[i][1]]
        sched == order \o reg
        es == Directed(g.es) IN
    (\A i \in 1..Len(outs) : outs[i][2] = 0) =>
    \A w \in MinWindow(es, g.I, sched)..N :
        Parallel(WindowState(es, g.I, Input(Len(g.I)), sched, w, ZeroSteps(order), Len(order)), psi)
=============================================================================
