-------------------------------- MODULE T_Cost ------------------------------
(* Evaluates the costs, slopes and statistics of recorded computations.  The  *)
(* numbers are printed exactly and compared with the real ones.               *)
EXTENDS Cost, Replay

Pair2(x) == <<x[1], x[2]>>
EdgesOf(r) == {<<p[1], p[2]>> : p \in ToSet(r.edges)}

(* r: n, edges, I, O, order (measured nodes), train, ps: [v |-> [p, t]] by node + 1 *)
BraOf(r, angles, v) ==
  LET m == r.ms[v + 1] IN
  Bra(m.p, IF m.free THEN Pair2(angles[IndexIn(r.train, v)]) ELSE Pair2(m.t), <<0, 0>>, 0)
State(r, angles, in) ==
  RunPattern(r.n, EdgesOf(r), r.I, in,
             [i \in 1..Len(r.order) |-> [v |-> r.order[i], bra |-> BraOf(r, angles, r.order[i])]],
             SelectSeq(r.O, LAMBDA v : v \notin ToSet(r.order))).psi

(* fidelities of the pairs at angles moved by the steps listed: [[j, k], ...] *)
Moved(angles, steps) == FoldLeft(LAMBDA a, s : ShiftAt(a, s[1], s[2]), angles, steps)
Fids(e, steps) ==
  Bound(Moved(e.angles, steps), LAMBDA a :
    [i \in 1..Len(e.ins) |-> Bound(State(e.a, a, e.ins[i]), LAMBDA psi : Fidelity(e.targets[i], psi))])

Value(e) ==
  CASE e.kind = "cost" -> [f |-> [i \in 1..Len(e.moves) |-> Fids(e, e.moves[i])]]
    [] e.kind = "kernel" ->
         [f |-> Bound([i \in 1..Len(e.xs) |-> State(e.a, e.xs[i], e.in)], LAMBDA us :
                Bound([i \in 1..Len(e.ys) |-> State(e.a, e.ys[i], e.in)], LAMBDA vs :
                  [i \in 1..Len(us) |-> [j \in 1..Len(vs) |-> Fidelity(us[i], vs[j])]]))]
    [] e.kind = "mixed" -> MixedFidelity(e.u, e.ws, e.vs)
    [] e.kind = "commuting" -> CommutingFidelity(e.p, e.q)
    [] e.kind = "variance" -> [v |-> [i \in 1..Len(e.samples) |-> Variance(e.samples[i])]]

TInit(t) == 0
TStep(t, s, e) ==
  LET x == Value(e) IN
  [st |-> IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x)) THEN s + 1 ELSE s,
   bad |-> {}]
=============================================================================
