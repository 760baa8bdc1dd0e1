------------------------------- MODULE MC_Born ------------------------------
(* Design check.  Nodes of a small resource are read one by one, in any order *)
(* and any basis, and the outcomes are averaged.  What is left is the partial *)
(* trace of the resource, whatever the bases and the order (nothing that is   *)
(* done to a node and forgotten is seen by the others), and the weights of the *)
(* two outcomes add up to that of the state before.                            *)
EXTENDS Born

CONSTANTS N, K, AngleSet

V == 0..(N - 1)
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
Directed(es) == {<<Min(e), Max(e)>> : e \in es}
Input(k) == [i \in 1..(2 ^ k) |-> <<i, 1 - i, 2, 0>>]
Seqs(k) == {s \in [1..k -> V] : \A i, j \in 1..k : i < j => s[i] < s[j]}
Angles1 == {<<1, 0>>}
Angles2 == {<<1, 0>>, <<-2, 1>>}

VARIABLES x0, xs, reg, scale, last
vars == <<x0, xs, reg, scale, last>>

Reg0 == [i \in 1..N |-> i - 1]
Init ==
  \E es \in SUBSET AllEdges, k \in K : \E I \in Seqs(k) :
    /\ x0 = Resource(Reg0, Directed(es), I, Input(k))
    /\ xs = <<x0>>
    /\ reg = Reg0
    /\ scale = 1
    /\ last = <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>

(* a basis, and the square of the norm of its bras over that of a unit one *)
Bases == {[b |-> <<Bra("Z", <<0, 0>>, <<0, 0>>, 0), Bra("Z", <<0, 0>>, <<0, 0>>, 1)>>, s |-> 1]}
         \cup {[b |-> <<Bra("XY", a, <<0, 0>>, 0), Bra("XY", a, <<0, 0>>, 1)>>, s |-> 2 * AngleD(a) * AngleD(a)] : a \in AngleSet}
Forget ==
  \E v \in ToSet(reg), m \in Bases :
    LET n == Len(reg)
        j == IndexIn(reg, v) IN
    /\ n > 1
    /\ xs' = Split(xs, n, j, m.b[1], m.b[2])
    /\ reg' = SelectSeq(reg, LAMBDA x : x # v)
    /\ scale' = scale * m.s
    /\ last' = <<Ones(xs, n, j, m.b[1]), Ones(xs, n, j, m.b[2]), <<m.s * Weight(xs)[1], m.s * Weight(xs)[2]>>>>
    /\ UNCHANGED x0
Spec == Init /\ [][Forget]_vars

(* the parts of the resource with the bits of the forgotten nodes fixed *)
Gone == SelectSeq(Reg0, LAMBDA v : v \notin ToSet(reg))
Part(bits) ==
  TLCEval([q \in 1..(2 ^ Len(reg)) |->
     LET f[i \in 0..N] == IF i = 0 THEN 0
           ELSE 2 * f[i - 1] + (IF Reg0[i] \in ToSet(reg) THEN Bit(q - 1, IndexIn(reg, Reg0[i]), Len(reg))
                                ELSE Bit(bits, IndexIn(Gone, Reg0[i]), Len(Gone))) IN
     x0[f[N] + 1]])
Traced == Density([b \in 1..(2 ^ Len(Gone)) |-> Part(b - 1)])
NothingLeaks ==
  LET t == Traced IN
  Density(xs) = [a \in 1..Len(t) |-> [b \in 1..Len(t) |-> Scale(scale, t[a][b])]]
WeightsAddUp == AddW(last[1], last[2]) = last[3]
=============================================================================
