------------------------------ MODULE MC_Optim -----------------------------
(* The recurrences against their closed forms, for every sequence of           *)
(* gradients up to a length.                                                    *)
EXTENDS Optim
CONSTANT Steps
G == IF Steps > 4 THEN {-3, -1, 0, 1, 2} ELSE {-2, 0, 3}
VARIABLES mom, b1, b2, gs, sgd, adam, fresh
vars == <<mom, b1, b2, gs, sgd, adam, fresh>>
Fractions == {<<0, 1>>, <<1, 2>>, <<3, 4>>}
Init == /\ mom \in Fractions /\ b1 \in Fractions \cup {<<9, 10>>} /\ b2 \in Fractions
        /\ gs = <<>> /\ sgd = SgdNew(1) /\ adam = AdamNew(1) /\ fresh = 0
Take == \E g \in G : /\ Len(gs) < Steps
                     /\ gs' = Append(gs, g)
                     /\ sgd' = SgdNext(sgd, mom, 1, <<g>>)
                     /\ adam' = AdamNext(adam, b1, b2, <<g>>)
                     /\ fresh' = fresh
Reset == /\ gs # <<>> /\ fresh < 1
         /\ gs' = <<>> /\ sgd' = SgdNew(1) /\ adam' = AdamNew(1) /\ fresh' = fresh + 1
Next == (Take \/ Reset) /\ UNCHANGED <<mom, b1, b2>>
Spec == Init /\ [][Next]_vars
k == Len(gs)
Sum(f, n) == LET h[i \in 0..n] == IF i = 0 THEN 0 ELSE h[i - 1] + f[i] IN h[n]
Pow(x, n) == IF n = 0 THEN 1 ELSE x ^ n
VelocityClosed == sgd.k = k /\ sgd.v[1] = -Sum([j \in 1..k |-> Pow(mom[1], k - j) * Pow(mom[2], j) * gs[j]], k)
FirstClosed == adam.m[1] = Sum([j \in 1..k |-> (b1[2] - b1[1]) * Pow(b1[1], k - j) * Pow(b1[2], j - 1) * gs[j]], k)
SecondClosed == adam.s[1] = Sum([j \in 1..k |-> (b2[2] - b2[1]) * Pow(b2[1], k - j) * Pow(b2[2], j - 1) * gs[j] * gs[j]], k)
(* for a constant gradient the unbiased moments are the gradient and its square *)
Unbiased == k >= 1 /\ (b1[2] < 10 \/ k <= 4) /\ (\A i \in 1..k : gs[i] = gs[1]) =>
  LET h == AdamHat(adam, b1, b2, k - 1)
      w == SteadyHat(<<gs[1]>>) IN
  /\ h.m[1] * h.mc[2] * w.md * w.mc[1] = w.m[1] * w.mc[2] * h.md * h.mc[1]
  /\ h.s[1] * h.sc[2] * w.sd * w.sc[1] = w.s[1] * w.sc[2] * h.sd * h.sc[1]
SecondPositive == adam.s[1] >= 0
(* Nesterov's step is the plain one with the next velocity looked ahead          *)
Nesterov == k >= 1 =>
  SgdMove(sgd, mom, TRUE, 1, <<gs[k]>>)[1] = SgdNext(sgd, mom, 1, <<gs[k]>>).v[1]
NoMomentum == k >= 1 /\ mom[1] = 0 => SgdMove(sgd, mom, FALSE, 1, <<gs[k]>>) = <<-gs[k]>>
=============================================================================
