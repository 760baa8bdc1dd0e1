-------------------------------- MODULE Noise -------------------------------
(* Patterns with noise: after the resource is entangled every node passes once *)
(* through a channel; then the nodes are measured with corrections, and the   *)
(* outcomes are forgotten.  Density matrices over Z[w], up to a factor.       *)
EXTENDS OpenGraph, Pattern

(* --- channels: weighted Kraus operators ------------------------------------- *)
(* the strength of a channel is p = a/b; dampings have strength g = (s/r)^2     *)
(* with c^2 + s^2 = r^2, so that sqrt(g) = s/r and sqrt(1 - g) = c/r            *)
Mat2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
I2(a, b, c, d) == Mat2(Int2R(a), Int2R(b), Int2R(c), Int2R(d))
PauliMat == [I |-> I2(1, 0, 0, 1), X |-> I2(0, 1, 1, 0), Z |-> I2(1, 0, 0, -1),
             Y |-> Mat2(Zero, Neg(Im), Im, Zero)]
Kraus(ch) ==
  CASE ch.name = "none" -> <<[w |-> 1, k |-> PauliMat.I]>>
    [] ch.name = "depolarizing" ->
         <<[w |-> 3 * (ch.b - ch.a), k |-> PauliMat.I], [w |-> ch.a, k |-> PauliMat.X],
           [w |-> ch.a, k |-> PauliMat.Y], [w |-> ch.a, k |-> PauliMat.Z]>>
    [] ch.name = "phase_flip" ->
         <<[w |-> ch.b - ch.a, k |-> PauliMat.I], [w |-> ch.a, k |-> PauliMat.Z]>>
    [] ch.name = "amplitude_damping" ->
         <<[w |-> 1, k |-> I2(ch.r, 0, 0, ch.c)], [w |-> 1, k |-> I2(0, ch.s, 0, 0)]>>
    [] ch.name = "phase_damping" ->
         <<[w |-> 1, k |-> I2(ch.r, 0, 0, ch.c)], [w |-> 1, k |-> I2(0, 0, 0, ch.s)]>>
    [] ch.name = "generalized_amplitude_damping" ->
         <<[w |-> ch.a, k |-> I2(ch.r, 0, 0, ch.c)], [w |-> ch.a, k |-> I2(0, ch.s, 0, 0)],
           [w |-> ch.b - ch.a, k |-> I2(ch.c, 0, 0, ch.r)], [w |-> ch.b - ch.a, k |-> I2(0, 0, ch.s, 0)]>>

(* TLC would evaluate a definition or an argument again at every use; a bound  *)
(* variable holds a value                                                       *)
Let1(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE
Let2(v, w, F(_, _)) == Let1(v, LAMBDA x : Let1(w, LAMBDA y : F(x, y)))

(* --- density matrices ---------------------------------------------------------*)
OuterR(v) == Let1(v, LAMBDA psi :
  [a \in 1..Len(psi) |-> [b \in 1..Len(psi) |-> Mul(psi[a], Conj(psi[b]))]])
AddM(v, w) == Let2(v, w, LAMBDA x, y : [a \in 1..Len(x) |-> [b \in 1..Len(x) |-> Add(x[a][b], y[a][b])]])
GcdM(x) == FoldLeft(LAMBDA acc, row : GcdAll(row, 1, acc), 0, x)
ReducedM(m) == Let1(m, LAMBDA x : Let1(GcdM(x), LAMBDA g :
  IF g <= 1 THEN x
  ELSE [a \in 1..Len(x) |-> [b \in 1..Len(x) |->
         <<x[a][b][1] \div g, x[a][b][2] \div g, x[a][b][3] \div g, x[a][b][4] \div g>>]]))
TraceR(m) == Let1(m, LAMBDA x : FoldLeft(LAMBDA acc, i : Add(acc, x[i][i]), Zero, [i \in 1..Len(x) |-> i]))

(* index k (0-based) with the bit of qubit j set to v *)
With(k, j, n, v) == k + (v - Bit(k, j, n)) * (2 ^ (n - j))

(* w K rho K^dagger on qubit j *)
Conjugated(r0, n, j, m0, w) == Let2(r0, m0, LAMBDA rho, m :
  [a \in 1..(2 ^ n) |-> [b \in 1..(2 ^ n) |->
    LET x == m[Bit(a - 1, j, n) + 1]
        y == m[Bit(b - 1, j, n) + 1]
        e(u, v) == IF x[u + 1] = Zero \/ y[v + 1] = Zero THEN Zero
                   ELSE Mul(Mul(x[u + 1], Conj(y[v + 1])), rho[With(a - 1, j, n, u) + 1][With(b - 1, j, n, v) + 1]) IN
    Scale(w, Add(Add(e(0, 0), e(0, 1)), Add(e(1, 0), e(1, 1))))]])

ThroughChannel(r0, n, j, ch) == Let2(r0, Kraus(ch), LAMBDA rho, ks :
  ReducedM(FoldLeft(LAMBDA acc, k : AddM(acc, Conjugated(rho, n, j, k.k, k.w)),
                    Conjugated(rho, n, j, ks[1].k, ks[1].w), Tail(ks))))

AllThrough(rho, n, ch) ==
  FoldLeft(LAMBDA r, j : ThroughChannel(r, n, j, ch), rho, [j \in 1..n |-> j])

(* project qubit j on a bra, on both sides *)
ProjectM(r0, n, j, b0) == Let2(r0, b0, LAMBDA rho, bra :
  LET low == 2 ^ (n - j)
      at(k) == (k \div low) * (2 * low) + (k % low) IN
  [a \in 1..(2 ^ (n - 1)) |-> [b \in 1..(2 ^ (n - 1)) |->
    LET a0 == at(a - 1) + 1
        c0 == at(b - 1) + 1
        e(x, y) == Mul(Mul(bra[x + 1], Conj(bra[y + 1])), rho[a0 + x * low][c0 + y * low]) IN
    Add(Add(e(0, 0), e(0, 1)), Add(e(1, 0), e(1, 1)))]])

(* a set of qubits flipped by X, another by Z *)
RECURSIVE SumBits(_, _, _)
SumBits(k, S, n) ==
  IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN Bit(k, j, n) + SumBits(k, S \ {j}, n)
RECURSIVE Flip(_, _, _)
Flip(k, S, n) ==
  IF S = {} THEN k ELSE LET j == CHOOSE j \in S : TRUE IN Flip(With(k, j, n, 1 - Bit(k, j, n)), S \ {j}, n)
Corrected(r0, n, x0, z0) == Let1(r0, LAMBDA rho : Let2(x0, z0, LAMBDA xs, zs :
  Let1([k \in 1..(2 ^ n) |-> [to |-> Flip(k - 1, xs, n) + 1, odd |-> SumBits(k - 1, zs, n) % 2 = 1]], LAMBDA q :
    [a \in 1..(2 ^ n) |-> [b \in 1..(2 ^ n) |->
       IF q[a].odd # q[b].odd THEN Neg(rho[q[a].to][q[b].to]) ELSE rho[q[a].to][q[b].to]]])))

(* the flow function that goes with the layers *)
FlowOfLayers(nb, I, O, ly) ==
  TLCEval([v \in DOMAIN nb \ O |->
     CHOOSE w \in nb[v] \ I : ly[w] < ly[v] /\ \A x \in nb[w] \ {v} : ly[x] < ly[v]])

(* measure v in register reg and correct, forgetting the outcome *)
MeasureForget(r, reg, nb, f, v, p, t) == Let1(r, LAMBDA rho :
  LET n == Len(reg)
      j == IndexIn(reg, v)
      left == SelectSeq(reg, LAMBDA x : x # v)
      xs == {IndexIn(left, f[v])}
      zs == {IndexIn(left, w) : w \in (nb[f[v]] \cap ToSet(left))}
      r0 == ProjectM(rho, n, j, Bra(p, t, <<0, 0>>, 0))
      r1 == ProjectM(rho, n, j, Bra(p, t, <<0, 0>>, 1)) IN
  ReducedM(AddM(r0, Corrected(r1, n - 1, xs, zs))))

MeasureForgetAll(rho, reg, nb, f, ms) ==
  FoldLeft(LAMBDA s, m : [rho |-> MeasureForget(s.rho, s.reg, nb, f, m.v, m.p, m.t),
                          reg |-> SelectSeq(s.reg, LAMBDA x : x # m.v)],
           [rho |-> rho, reg |-> reg], ms)

PermuteM(r, reg, target) ==
  LET n == Len(reg) IN
  Let2(r, [q \in 1..(2 ^ n) |-> BitsToIndex(q - 1, n, target, reg, 1) + 1], LAMBDA rho, to :
    [a \in 1..(2 ^ n) |-> [b \in 1..(2 ^ n) |-> rho[to[a]][to[b]]]])

(* ms: the measured nodes in an order the flow allows, [v, p, t] *)
NoisyRun(n, edges, I, in, O, ms, ch) ==
  LET reg == [i \in 1..n |-> i - 1] IN
  Let1([v \in 0..(n - 1) |-> {w \in 0..(n - 1) : <<v, w>> \in edges \/ <<w, v>> \in edges}], LAMBDA nb :
    Let1(FlowOfLayers(nb, ToSet(I), ToSet(O), FlowLayers(nb, ToSet(I), ToSet(O))), LAMBDA f :
      Let1(MeasureForgetAll(AllThrough(OuterR(Resource(reg, edges, I, in)), n, ch), reg, nb, f, ms), LAMBDA r :
        PermuteM(r.rho, r.reg, O))))
=============================================================================
