-------------------------------- MODULE T_Expr ------------------------------
(* Evaluates expressivities of recorded samples, and judges the digraphs of   *)
(* flow spaces they order.                                                    *)
EXTENDS Expr, Replay

Pair2(x) == <<x[1], x[2]>>
EdgesOf(r) == {<<p[1], p[2]>> : p \in ToSet(r.edges)}
BraOf(r, angles, v) ==
  LET m == r.ms[v + 1] IN
  Bra(m.p, IF m.free THEN Pair2(angles[IndexIn(r.train, v)]) ELSE Pair2(m.t), <<0, 0>>, 0)
State(r, angles, in) ==
  RunPattern(r.n, EdgesOf(r), r.I, in,
             [i \in 1..Len(r.order) |-> [v |-> r.order[i], bra |-> BraOf(r, angles, r.order[i])]], r.O).psi

(* the fidelities whose average is the mean of the samples *)
MeanTerms(r) ==
  Bound(Design(Len(r.I)), LAMBDA ds :
    Bound(SetToSeq([1..Len(r.train) -> {<<0, 0>>, <<4, 0>>}]), LAMBDA as :
      [i \in 1..(Len(ds) * Len(as)) |->
         LET d == ds[((i - 1) \div Len(as)) + 1]
             a == as[((i - 1) % Len(as)) + 1] IN
         Bound(State(r, a, d), LAMBDA psi : Fidelity(d, psi))]))

(* spaces: nodes [id, rank] where ranks order the values; skeleton and directed edges *)
Ids(ns) == {x.id : x \in ToSet(ns)}
RankOf(ns, i) == (CHOOSE x \in ToSet(ns) : x.id = i).rank
DigraphBad(e) ==
  LET want == {{p[1], p[2]} : p \in ToSet(e.skeleton)}
      got == {{p[1], p[2]} : p \in ToSet(e.edges)} IN
  Chk("digraph-nodes", Ids(e.nodes) = ToSet(e.space))
  \cup Chk("digraph-edges", got = want /\ Len(e.edges) = Cardinality(want))
  \cup Chk("digraph-direction",
           \A p \in ToSet(e.edges) : p[1] \in Ids(e.nodes) /\ p[2] \in Ids(e.nodes)
                                     /\ RankOf(e.nodes, p[1]) >= RankOf(e.nodes, p[2]))

Value(e) ==
  CASE e.kind = "mean" -> [f |-> MeanTerms(e.a)]
    [] e.kind = "hist" ->
         [counts |-> Counts(e.xs, e.unit, e.bins),
          haar |-> [i \in 1..e.bins |-> HaarDensity(2 * i - 1, 2 * e.bins, 2 ^ e.qubits)]]
    [] e.kind = "density" -> [haar |-> [i \in 1..Len(e.at) |-> HaarDensity(e.at[i], e.of, 2 ^ e.qubits)]]
    [] OTHER -> [none |-> 0]

TInit(t) == 0
TStep(t, s, e) ==
  IF e.kind = "digraph" THEN [st |-> s, bad |-> DigraphBad(e)]
  ELSE LET x == Value(e) IN
    [st |-> IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x)) THEN s + 1 ELSE s,
     bad |-> {}]
=============================================================================
