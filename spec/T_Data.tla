-------------------------------- MODULE T_Data -----------------------------
(* Recorded splits and generated data sets.  Entries of states are recorded as  *)
(* the entry of their input they equal, and the phase.                          *)
EXTENDS Data, Replay
DTInit(t) == 0
Subsets(k) == SUBSET (1..k)
U(e) == [col |-> e.u.col, ph |-> e.u.ph]
Row(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Split(e) ==
  Chk("split-failed", e.ok) \cup
  (IF ~e.ok THEN {} ELSE
   Chk("pairs-separated", e.xtr = e.ytr /\ e.xte = e.yte)
   \cup Chk("pairs-lost", NothingLost(e.n, e.xtr, e.xte))
   \cup Chk("test-size", Counts(e.n, e.p, e.q, e.xtr, e.xte))
   \cup Chk("order-not-kept", e.shuffle \/ InOrder(e.xtr, e.xte))
   \cup Chk("arguments-modified", e.same))
Ideal(e, x) == Row(x) = Apply(U(e), Basis(2 ^ e.k))
Flipped(e, x) == \E S \in Subsets(e.k) : Row(x) = Noisy(U(e), S, e.k)
AllFlipped(e, x) == Row(x) = Noisy(U(e), 1..e.k, e.k)
All(seq, P(_)) == \A i \in 1..Len(seq) : P(seq[i])
Set(e) ==   \* kind: plain, brownian, bitflip; level: zero, some, one
  Chk("generation-failed", e.ok) \cup
  (IF ~e.ok THEN {} ELSE
   Chk("sample-count", Len(e.train) + Len(e.test) = e.n /\ Len(e.test) = TestCount(e.n, e.p, e.q) /\ e.paired)
   \cup Chk("not-normalized", e.normed)
   \cup Chk("samples-repeated", e.distinct)
   \cup Chk("test-targets", All(e.test, LAMBDA s : Ideal(e, s)))
   \cup (CASE e.kind = "plain" \/ e.level = "zero" -> Chk("train-targets", All(e.train, LAMBDA s : Ideal(e, s)))
           [] e.kind = "bitflip" /\ e.level = "one" -> Chk("all-flipped", All(e.train, LAMBDA s : AllFlipped(e, s)))
           [] e.kind = "bitflip" -> Chk("flipped", All(e.train, LAMBDA s : Flipped(e, s)))
           [] OTHER ->   \* the noise conjugates the unitary: nothing happens to multiples of the identity
                Chk("noise-on-identity", Central(U(e)) => All(e.train, LAMBDA s : Ideal(e, s)))))
DTStep(t, s, e) ==
  [st |-> s,
   bad |-> CASE e.op = "split" -> Split(e)
             [] e.op = "set" -> Set(e)
             [] e.op = "shuffles" -> Chk("never-shuffled", e.differ)
             [] e.op = "places" -> Chk("stuck-in-one-part", \A v \in 1..e.n :
                                     LET ins == {i \in 1..Len(e.trains) : v \in ToSet(e.trains[i])} IN
                                     ins # {} /\ ins # 1..Len(e.trains))
             [] e.op = "states" -> Chk("states-failed", e.ok) \cup (IF e.ok THEN Chk("states", e.n = e.count /\ e.normed /\ e.dims) ELSE {})
             [] e.op = "reject" -> Chk("accepted-" \o e.what, ~e.ok)]
=============================================================================
