-------------------------------- MODULE T_Sim -------------------------------
(* Evaluates what the patterns of recorded runs prescribe.  The states are    *)
(* printed (exactly, unnormalised) and compared with the real ones.           *)
EXTENDS Pattern, Outcome, Replay

Pair2(x) == <<x[1], x[2]>>
EdgesOf(r) == {<<p[1], p[2]>> : p \in ToSet(r.edges)}

(* r: n, edges, I, O, ments: [[v, k, p, t, u, tp, tt, tu, cond]], train, angles *)
(* train lists the trainable nodes in the circuit's order, angles their angles *)
MentAt(r, v) == LET S == {m \in ToSet(r.ments) : m.v = v} IN CHOOSE m \in S : TRUE

OutcomeOf(outs, v) == (CHOOSE x \in ToSet(outs) : x[1] = v)[2]

(* plane and angles that node v is measured with, given the outcomes so far *)
AngleFor(r, v) == Pair2(r.angles[IndexIn(r.train, v)])
Effective(r, v, outs) ==
  LET m == MentAt(r, v)
      take == m.k = "c" /\ EvalBool(m.cond, [x \in {y[1] : y \in ToSet(outs)} |-> OutcomeOf(outs, x)])
      p == IF take THEN m.tp ELSE m.p
      free == IF take THEN m.tfree ELSE m.free
      t == IF take THEN m.tt ELSE m.t
      u == IF take THEN m.tu ELSE m.u IN
  [p |-> p, t |-> IF free THEN AngleFor(r, v) ELSE Pair2(t), u |-> Pair2(u)]

(* measurements in schedule order with the recorded outcomes *)
RECURSIVE Steps(_, _, _)
Steps(r, outs, i) ==
  IF i > Len(outs) THEN <<>>
  ELSE LET v == outs[i][1]
           e == Effective(r, v, SubSeq(outs, 1, i - 1)) IN
       <<[v |-> v, bra |-> Bra(e.p, e.t, e.u, outs[i][2])]>> \o Steps(r, outs, i + 1)

QOut(r) == SelectSeq(r.O, LAMBDA v : ~\E m \in ToSet(r.ments) : m.v = v)

Run(r, in) == RunPattern(r.n, EdgesOf(r), r.I, in, Steps(r, r.outs, 1), QOut(r))

(* the same, holding no more nodes than the order of measurement needs         *)
RunLong(r, in) ==
  LET left == QOut(r)
      sched == [i \in 1..Len(r.outs) |-> r.outs[i][1]] \o left
      es == EdgesOf(r)
      w == Max({MinWindow(es, r.I, sched), Len(left)})
      psi == WindowState(es, r.I, in, sched, w, Steps(r, r.outs, 1), Len(r.outs)) IN
  [psi |-> psi, zero |-> IsZero(psi)]

(* kinds: "run" one pattern; "long" the same through a window; "seq" each fed with the one before; "par" side by *)
(* side on a product state; "window" what a window holds; "min" its least size *)
RECURSIVE Chain(_, _, _)
Chain(ps, i, x) ==
  IF i > Len(ps) \/ x.zero THEN x ELSE Chain(ps, i + 1, Run(ps[i], x.psi))
RECURSIVE Side(_, _, _)
Side(ps, ins, i) ==
  LET x == Run(ps[i], ins[i]) IN
  IF i = Len(ps) THEN x
  ELSE LET y == Side(ps, ins, i + 1) IN [psi |-> Kron(x.psi, y.psi), zero |-> x.zero \/ y.zero]

Value(e) ==
  CASE e.kind = "run" -> Run(e.a, e.in)
    [] e.kind = "long" -> RunLong(e.a, e.in)
    [] e.kind = "seq" -> Chain(e.parts, 1, [psi |-> e.in, zero |-> FALSE])
    [] e.kind = "par" -> Side(e.parts, e.ins, 1)
    [] e.kind = "min" -> [min |-> MinWindow(EdgesOf(e.a), e.a.I, e.sched)]

TInit(t) == 0
TStep(t, s, e) ==
  LET x == Value(e) IN
  [st |-> IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x)) THEN s + 1 ELSE s,
   bad |-> {}]
=============================================================================
