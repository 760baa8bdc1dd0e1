------------------------------- MODULE MC_Data -----------------------------
(* Splitting as the library does it: optionally reorder the pairs, then cut.   *)
EXTENDS Data, TLC
CONSTANTS MaxN, MaxQ
VARIABLES n, p, q, shuffled, pc, left, perm, tr, te
vars == <<n, p, q, shuffled, pc, left, perm, tr, te>>
Init == /\ n \in 0..MaxN /\ q \in 1..MaxQ /\ p \in 0..MaxQ /\ p <= q /\ shuffled \in BOOLEAN
        /\ pc = "order" /\ left = 1..n /\ perm = <<>> /\ tr = <<>> /\ te = <<>>
(* the pairs are taken in some order; without shuffling the smallest first      *)
Take == /\ pc = "order" /\ left # {}
        /\ \E i \in left : /\ shuffled \/ \A j \in left : i <= j
                           /\ perm' = Append(perm, i) /\ left' = left \ {i}
        /\ UNCHANGED <<n, p, q, shuffled, pc, tr, te>>
Cut == /\ pc = "order" /\ left = {}
       /\ LET k == n - TestCount(n, p, q) IN tr' = SubSeq(perm, 1, k) /\ te' = SubSeq(perm, k + 1, n)
       /\ pc' = "done" /\ UNCHANGED <<n, p, q, shuffled, left, perm>>
Next == Take \/ Cut
Spec == Init /\ [][Next]_vars
Done == pc = "done"
SplitCounts == Done => Counts(n, p, q, tr, te)
SplitKeeps == Done => NothingLost(n, tr, te)
SplitOrdered == Done /\ ~shuffled => InOrder(tr, te)
WholeOrNothing == Done => (p = 0 => te = <<>>) /\ (p = q => tr = <<>>)
(* flips are involutions, and flips of disjoint sets of qubits compose           *)
FlipTwice == \A k \in 1..3 : \A S \in SUBSET (1..k) :
  /\ Apply(Flip(S, k), Apply(Flip(S, k), Basis(2 ^ k))) = Basis(2 ^ k)
  /\ \A R \in SUBSET ((1..k) \ S) : Apply(Flip(R, k), Apply(Flip(S, k), Basis(2 ^ k))) = Apply(Flip(R \cup S, k), Basis(2 ^ k))
ASSUME FlipTwice
=============================================================================
