------------------------------- MODULE MC_Noise -----------------------------
(* Design check of noisy patterns: nodes pass through the channel one by one   *)
(* in any order, then are measured one by one in any order the flow allows,    *)
(* with corrections and outcomes forgotten.  Every complete behaviour ends in  *)
(* the mixture, over all strings of Kraus operators and all outcomes, of the   *)
(* corrected pure branches; without noise it is the pure zero branch.          *)
EXTENDS Noise

CONSTANTS N, Names

Triples == {<<1, 1, 0>>, <<5, 4, 3>>, <<1, 0, 1>>}
Fractions == {<<0, 1>>, <<1, 4>>, <<1, 1>>}
Channels ==
  {[name |-> "none"]}
  \cup {[name |-> m, a |-> q[1], b |-> q[2]] : m \in {"depolarizing", "phase_flip"}, q \in Fractions}
  \cup {[name |-> m, r |-> x[1], c |-> x[2], s |-> x[3]] : m \in {"amplitude_damping", "phase_damping"}, x \in Triples}
  \cup {[name |-> "generalized_amplitude_damping", a |-> q[1], b |-> q[2], r |-> x[1], c |-> x[2], s |-> x[3]]
          : q \in Fractions, x \in Triples}

(* channels preserve the trace: the weighted K^dagger K sum to a multiple of 1 *)
MulM(x, y) == [a \in 1..2 |-> [b \in 1..2 |-> Add(Mul(x[a][1], y[1][b]), Mul(x[a][2], y[2][b]))]]
Dag(x) == [a \in 1..2 |-> [b \in 1..2 |-> Conj(x[b][a])]]
RECURSIVE SumK(_, _)
SumK(ks, i) ==
  IF i > Len(ks) THEN I2(0, 0, 0, 0)
  ELSE LET m == MulM(Dag(ks[i].k), ks[i].k)
           q == SumK(ks, i + 1) IN
       [a \in 1..2 |-> [b \in 1..2 |-> Add(Scale(ks[i].w, m[a][b]), q[a][b])]]
ASSUME \A ch \in Channels : LET s == SumK(Kraus(ch), 1) IN
         s[1][1] = s[2][2] /\ s[1][1][1] > 0 /\ s[1][2] = Zero /\ s[2][1] = Zero

SameM(m1, m2) ==   \* equal up to the normalisation
  Let2(ReducedM(m1), ReducedM(m2), LAMBDA x, y : Let2(TraceR(x), TraceR(y), LAMBDA t, u :
    \A a, b \in 1..Len(x) : Mul(x[a][b], u) = Mul(y[a][b], t)))

(* laws of the channels on one qubit *)
Probe == OuterR(<<Int2R(2), <<1, 1, 0, 0>>>>)
Dep(a, b) == [name |-> "depolarizing", a |-> a, b |-> b]
Amp(r, c, s) == [name |-> "amplitude_damping", r |-> r, c |-> c, s |-> s]
Pha(r, c, s) == [name |-> "phase_damping", r |-> r, c |-> c, s |-> s]
ASSUME SameM(ThroughChannel(Probe, 1, 1, Dep(3, 4)), I2(1, 0, 0, 1))
ASSUME SameM(ThroughChannel(Probe, 1, 1, Amp(1, 0, 1)), I2(1, 0, 0, 0))
ASSUME SameM(ThroughChannel(Probe, 1, 1, Pha(1, 0, 1)),
             ThroughChannel(Probe, 1, 1, [name |-> "phase_flip", a |-> 1, b |-> 2]))
ASSUME \A x \in Triples :
         LET g(a) == [name |-> "generalized_amplitude_damping", a |-> a, b |-> 1, r |-> x[1], c |-> x[2], s |-> x[3]]
             flip(m) == [a \in 1..2 |-> [b \in 1..2 |-> m[3 - a][3 - b]]] IN
         /\ SameM(ThroughChannel(Probe, 1, 1, g(1)), ThroughChannel(Probe, 1, 1, Amp(x[1], x[2], x[3])))
         /\ SameM(ThroughChannel(Probe, 1, 1, g(0)),
                  flip(ThroughChannel(flip(Probe), 1, 1, Amp(x[1], x[2], x[3]))))

VARIABLES g, rho, reg, todo
vars == <<g, rho, reg, todo>>

V == 0..(N - 1)
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}
NbOf(es) == TLCEval([v \in V |-> {w \in V : {v, w} \in es}])
Directed(es) == {<<Min(e), Max(e)>> : e \in es}
AngleOf(v) == <<v + 1, 0>>
In == <<Int2R(1), <<0, 1, 0, 0>>>>
R0 == [i \in 1..N |-> i - 1]

(* --- the independent definition: all Kraus strings, all outcomes, pure states *)
OnQubit(psi, n, j, m) ==
  TLCEval([q \in 1..(2 ^ n) |->
     LET x == m[Bit(q - 1, j, n) + 1] IN
     Add(Mul(x[1], psi[With(q - 1, j, n, 0) + 1]), Mul(x[2], psi[With(q - 1, j, n, 1) + 1]))])
ProjectRaw(x, n, j, bra) ==
  LET low == 2 ^ (n - j) IN
  TLCEval([q \in 1..(2 ^ (n - 1)) |->
     LET k == q - 1
         k0 == (k \div low) * (2 * low) + (k % low) IN
     Add(Mul(bra[1], x[k0 + 1]), Mul(bra[2], x[k0 + low + 1]))])
RECURSIVE CorrectPure(_, _, _, _)
CorrectPure(psi, n, x, zs) ==
  IF zs = {} THEN ApplyX(psi, n, x)
  ELSE LET z == CHOOSE z \in zs : TRUE IN CorrectPure(ApplyZ(psi, n, z), n, x, zs \ {z})

RECURSIVE Branches(_, _, _, _)   \* sum over outcomes, measured nodes in the order of the flow
Branches(x, psi, r, k) ==
  LET left == {v \in ToSet(r) : v \notin x.O /\ x.ly[v] = k} IN
  IF k = 0 THEN OuterR(psi)
  ELSE IF left = {} THEN Branches(x, psi, r, k - 1)
  ELSE LET v == CHOOSE v \in left : TRUE
           j == IndexIn(r, v)
           n == Len(r)
           r2 == SelectSeq(r, LAMBDA y : y # v)
           b(o) == ProjectRaw(psi, n, j, Bra("XY", AngleOf(v), <<0, 0>>, o)) IN
       AddM(Branches(x, b(0), r2, k),
            Branches(x, CorrectPure(b(1), n - 1, IndexIn(r2, x.f[v]),
                                    {IndexIn(r2, w) : w \in x.nb[x.f[v]] \ ({v} \cup (V \ ToSet(r2)))}), r2, k))

ScaleM(w, m) == TLCEval([a \in 1..Len(m) |-> [b \in 1..Len(m) |-> Scale(w, m[a][b])]])
RECURSIVE Strings(_, _, _, _)
Strings(x, psi, ks, j) ==
  IF j > N THEN Branches(x, psi, R0, Depth(x.ly))
  ELSE LET term[i \in 1..Len(ks)] ==
             LET m == ScaleM(ks[i].w, Strings(x, OnQubit(psi, N, j, ks[i].k), ks, j + 1)) IN
             IF i = 1 THEN m ELSE AddM(term[i - 1], m) IN
       term[Len(ks)]

Init ==
  /\ todo = V
  /\ reg = R0
  /\ \E es \in SUBSET AllEdges, i \in V, o \in V, ch \in {c \in Channels : c.name \in Names} :
    LET nb == TLCEval(NbOf(es))
        ly == TLCEval(FlowLayers(nb, {i}, {o}))
        x == [nb |-> nb, es |-> es, I |-> <<i>>, O |-> {o}, ly |-> ly, ch |-> ch,
              f |-> FlowOfLayers(nb, {i}, {o}, ly)] IN
    /\ DOMAIN ly = V
    /\ g = x @@ [want |-> Strings(x, Resource(R0, Directed(es), <<i>>, In), Kraus(ch), 1)]
    /\ rho = OuterR(Resource(R0, Directed(es), <<i>>, In))

Pass(v) ==   \* one node through the channel
  /\ v \in todo
  /\ rho' = ThroughChannel(rho, N, IndexIn(R0, v), g.ch)
  /\ todo' = todo \ {v}
  /\ UNCHANGED <<g, reg>>

Measure(v) ==
  /\ todo = {}
  /\ v \in ToSet(reg) \ g.O
  /\ \A w \in ToSet(reg) : g.ly[w] <= g.ly[v]
  /\ rho' = MeasureForget(rho, reg, g.nb, g.f, v, "XY", AngleOf(v))
  /\ reg' = SelectSeq(reg, LAMBDA y : y # v)
  /\ UNCHANGED <<g, todo>>

Next == \E v \in V : Pass(v) \/ Measure(v)
Spec == Init /\ [][Next]_vars

MeasureOrder(x) ==
  SortSeq(SetToSeq(V \ x.O), LAMBDA v, w : x.ly[v] > x.ly[w])
Done == ToSet(reg) = g.O /\ todo = {}
MixtureOfBranches == Done => SameM(rho, g.want)
SameAsRun == Done =>
  SameM(rho, NoisyRun(N, Directed(g.es), g.I, In, SetToSeq(g.O),
              LET r == MeasureOrder(g) IN [k \in 1..Len(r) |-> [v |-> r[k], p |-> "XY", t |-> AngleOf(r[k])]], g.ch))
Hermitian == \A a, b \in 1..Len(rho) : rho[a][b] = Conj(rho[b][a])
NoNoiseIsPure == Done /\ g.ch.name = "none" =>
  LET r == MeasureOrder(g)
      z == RunPattern(N, Directed(g.es), g.I, In,
              [k \in 1..Len(r) |-> [v |-> r[k], bra |-> Bra("XY", AngleOf(r[k]), <<0, 0>>, 0)]], SetToSeq(g.O)) IN
  SameM(rho, OuterR(z.psi))
=============================================================================
