------------------------------- MODULE MC_Cost ------------------------------
(* Design check: in every small pattern with a causal flow the probability of *)
(* finding a target behaves in each angle as shift rules need: the norm of    *)
(* the zero branch does not depend on it, and it is a trigonometric           *)
(* polynomial of degree one, so that every shift gives the same slope.        *)
EXTENDS OpenGraph, Cost

CONSTANTS N, K, AngleSet

AnglesA == {<<0, 0>>, <<1, 0>>}
AnglesB == {<<3, 0>>, <<-2, 1>>}

VARIABLES g, node, k
vars == <<g, node, k>>

V == 0..(N - 1)
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
NbOf(es) == [v \in V |-> {w \in V : {v, w} \in es}]
Seqs(n) == {s \in [1..n -> V] : \A i, j \in 1..n : i < j => s[i] < s[j]}
Input(n) == [i \in 1..(2 ^ n) |-> <<i, 1 - i, 2, 0>>]
Target(n) == [i \in 1..(2 ^ n) |-> <<1, i, 0, 2 - i>>]
Directed(es) == {<<Min(e), Max(e)>> : e \in es}

ProjectRaw(x, n, j, bra) ==
  LET low == 2 ^ (n - j) IN
  TLCEval([q \in 1..(2 ^ (n - 1)) |->
     LET i == q - 1
         k0 == (i \div low) * (2 * low) + (i % low) IN
     Add(Mul(bra[1], x[k0 + 1]), Mul(bra[2], x[k0 + low + 1]))])
ZeroBranch(x0, a, O) ==
  FoldLeft(LAMBDA s, v : [x |-> ProjectRaw(s.x, Len(s.r), IndexIn(s.r, v), Bra("XY", a[v], <<0, 0>>, 0)),
                          r |-> SelectSeq(s.r, LAMBDA y : y # v)],
           [x |-> x0, r |-> [i \in 1..N |-> i - 1]], SelectSeq([i \in 1..N |-> i - 1], LAMBDA v : v \notin ToSet(O)))

At(v, s) == Bound(ZeroBranch(g.x0, [g.a EXCEPT ![v] = <<@[1] + s, @[2]>>], g.O), LAMBDA r :
  [p |-> NormSq(Inner(Target(Len(g.O)), r.x)), n |-> VecNorm(r.x)])

Init ==
  \E es \in SUBSET AllEdges, kk \in K :
  \E I \in Seqs(kk), O \in Seqs(kk) :
  \E a \in [V \ ToSet(O) -> AngleSet] :
    /\ HasFlow(NbOf(es), ToSet(I), ToSet(O))
    /\ g = [es |-> es, I |-> I, O |-> O, a |-> a,
            x0 |-> Resource([i \in 1..N |-> i - 1], Directed(es), I, Input(kk))]
    /\ node = -1
    /\ k = <<>>

(* choose an angle, and look at the probability in all its grid points *)
Look ==
  /\ node = -1
  /\ \E v \in V \ ToSet(g.O) :
      /\ node' = v
      /\ k' = [s \in 0..7 |-> At(v, s)]
  /\ UNCHANGED g
Spec == Init /\ [][Look]_vars

P(s) == k[s % 8].p
Looked == node # -1
NormConstant == Looked => \A s \in 0..7 : k[s].n = k[0].n
DegreeOne == Looked => \A s \in 0..7 : AddS(P(s), P(s + 4)) = AddS(P(s + 2), P(s + 6))
(* slopes through shifts pi/4, pi/2 and 3 pi/4: sqrt2 (P(t+1) - P(t-1)) = P(t+2) - P(t-2) *)
Root2(a) == <<2 * a[2], a[1]>>
ShiftFree ==
  Looked => \A s \in 0..7 :
    /\ Root2(SubS(P(s + 1), P(s + 7))) = SubS(P(s + 2), P(s + 6))
    /\ Root2(SubS(P(s + 3), P(s + 5))) = SubS(P(s + 2), P(s + 6))
=============================================================================
