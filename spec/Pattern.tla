------------------------------- MODULE Pattern ------------------------------
(* What a one-way computation prescribes.  A pattern is an open graph with a  *)
(* measurement on some nodes.  Preparing plus states on the non-inputs,       *)
(* entangling every edge and projecting measured nodes, one at a time in any  *)
(* order, leaves a state of the other nodes.  States are vectors over Z[w],   *)
(* unnormalised; qubit 1 of a register is the most significant.               *)
EXTENDS Ring, SequencesExt, FiniteSetsExt

(* bit of qubit j (1-based) of index k (0-based) in a register of n qubits *)
Bit(k, j, n) == (k \div (2 ^ (n - j))) % 2

IndexIn(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

RECURSIVE BitsToIndex(_, _, _, _, _)
BitsToIndex(k, n, reg, sub, i) ==
  IF i > Len(sub) THEN 0
  ELSE Bit(k, IndexIn(reg, sub[i]), n) * (2 ^ (Len(sub) - i)) + BitsToIndex(k, n, reg, sub, i + 1)

(* the resource: register reg (a sequence of all the nodes), input vector in *)
Resource(reg, edges, I, in) ==
  LET n == Len(reg)
      pos == [v \in ToSet(reg) |-> IndexIn(reg, v)]
      es == {<<pos[e[1]], pos[e[2]]>> : e \in edges} IN
  TLCEval([q \in 1..(2 ^ n) |->
     LET k == q - 1
         a == in[BitsToIndex(k, n, reg, I, 1) + 1]
         odd == Cardinality({e \in es : Bit(k, e[1], n) = 1 /\ Bit(k, e[2], n) = 1}) % 2 = 1
     IN IF odd THEN Neg(a) ELSE a])

(* the bra of outcome o of a measurement: p plane, t angle (t2 for plane XYZ)  *)
Rot(t, o) == <<t[1] + 4 * o, t[2]>>
BraAt(p, t, u) ==
  LET d2 == 2 * AngleD(t)
      c == Cos2(t)
      s == Sin2(t) IN
  CASE p = "XY" -> <<Int2R(AngleD(t)), Conj(AngleE(t))>>
    [] p = "XZ" -> IF Add(Int2R(d2), s) # Zero THEN <<Add(Int2R(d2), s), c>>
                   ELSE <<c, Sub(Int2R(d2), s)>>
    [] p = "YZ" -> IF Add(Int2R(d2), s) # Zero THEN <<Add(Int2R(d2), s), Neg(Mul(Im, c))>>
                   ELSE <<c, Neg(Mul(Im, Sub(Int2R(d2), s)))>>
    [] p = "XYZ" ->   \* t the polar angle from the XY plane, u the azimuth
         IF Add(Int2R(d2), s) # Zero
           THEN <<Scale(AngleD(u), Add(Int2R(d2), s)), Mul(Conj(AngleE(u)), c)>>
           ELSE <<Zero, One>>
Bra(p, t, u, o) ==
  CASE p = "X" -> BraAt("XY", <<4 * o, 0>>, u)
    [] p = "Y" -> BraAt("XY", <<2 + 4 * o, 0>>, u)
    [] p = "Z" -> IF o = 0 THEN <<One, Zero>> ELSE <<Zero, One>>
    [] p = "XYZ" /\ o = 1 -> BraAt("XYZ", <<-t[1], -t[2]>>, <<u[1] + 4, u[2]>>)
    [] OTHER -> BraAt(p, Rot(t, o), u)

(* project qubit j of a register of n qubits on a bra *)
Project(psi, n, j, bra) ==
  LET low == 2 ^ (n - j) IN
  Reduced(TLCEval([q \in 1..(2 ^ (n - 1)) |->
     LET k == q - 1
         k0 == (k \div low) * (2 * low) + (k % low) IN
     Add(Mul(bra[1], psi[k0 + 1]), Mul(bra[2], psi[k0 + low + 1]))]))

(* measure nodes in the order listed: ms[i] = [v |-> node, bra |-> bra].       *)
(* Result: the state, the nodes left, and the norms after every step.         *)
RECURSIVE MeasureAll(_, _, _, _, _)
MeasureAll(psi, reg, ms, i, norms) ==
  IF i > Len(ms) THEN [psi |-> psi, reg |-> reg, norms |-> norms]
  ELSE LET j == IndexIn(reg, ms[i].v)
           nxt == Project(psi, Len(reg), j, ms[i].bra) IN
       MeasureAll(nxt, SelectSeq(reg, LAMBDA x : x # ms[i].v), ms, i + 1,
                  Append(norms, IsZero(nxt)))

(* reorder a register *)
Permute(psi, reg, target) ==
  LET n == Len(reg) IN
  TLCEval([q \in 1..(2 ^ n) |->
      psi[BitsToIndex(q - 1, n, target, reg, 1) + 1]])

(* the state of the nodes `out` (in that order) *)
RunPattern(n, edges, I, in, ms, out) ==
  LET reg == [i \in 1..n |-> i - 1]
      r == MeasureAll(Resource(reg, edges, I, in), reg, ms, 1, <<>>) IN
  [psi |-> Permute(r.psi, r.reg, out), zero |-> \E i \in 1..Len(r.norms) : r.norms[i]]

(* --- the same computation through a sliding window ---------------------------*)
(* Only the next w nodes of the schedule are held: the first one is measured,  *)
(* then the next one of the schedule joins with its edges to the ones held.    *)
Within(edges, S) == {e \in edges : e[1] \in S /\ e[2] \in S}
Held(sched, k, w) == SubSeq(sched, k + 1, IF k + w > Len(sched) THEN Len(sched) ELSE k + w)

WindowStart(edges, I, in, sched, w) ==
  LET reg == Held(sched, 0, w) IN Resource(reg, Within(edges, ToSet(reg)), I, in)

WindowStep(psi, edges, sched, w, k, bra) ==   \* from k measured nodes to k + 1
  LET reg == Held(sched, k, w)
      left == Project(psi, Len(reg), 1, bra) IN
  IF k + w + 1 > Len(sched) THEN left
  ELSE LET new == sched[k + w + 1]
           reg2 == Append(Tail(reg), new)
           n == Len(reg2)
           es == {<<IndexIn(reg2, e[1]), IndexIn(reg2, e[2])>> :
                    e \in {x \in Within(edges, ToSet(reg2)) : x[1] = new \/ x[2] = new}} IN
       TLCEval([q \in 1..(2 ^ n) |->
         LET a == left[((q - 1) \div 2) + 1] IN
         IF Cardinality({e \in es : Bit(q - 1, e[1], n) = 1 /\ Bit(q - 1, e[2], n) = 1}) % 2 = 1
           THEN Neg(a) ELSE a])

RECURSIVE WindowFrom(_, _, _, _, _, _, _)
WindowFrom(psi, edges, sched, w, ms, k, upto) ==
  IF k = upto THEN psi
  ELSE WindowFrom(WindowStep(psi, edges, sched, w, k, ms[k + 1].bra), edges, sched, w, ms, k + 1, upto)

WindowState(edges, I, in, sched, w, ms, k) ==
  WindowFrom(WindowStart(edges, I, in, sched, w), edges, sched, w, ms, 0, k)

(* the smallest window that loses nothing *)
MinWindow(edges, I, sched) ==
  LET at(v) == IndexIn(sched, v) IN
  Max({1} \cup {at(v) : v \in ToSet(I)} \cup {Abs(at(e[1]) - at(e[2])) + 1 : e \in edges})

(* Pauli operators on qubit j of n *)
ApplyX(psi, n, j) ==
  LET low == 2 ^ (n - j) IN
  TLCEval([q \in 1..(2 ^ n) |-> IF Bit(q - 1, j, n) = 0 THEN psi[q + low] ELSE psi[q - low]])
ApplyZ(psi, n, j) ==
  TLCEval([q \in 1..(2 ^ n) |-> IF Bit(q - 1, j, n) = 0 THEN psi[q] ELSE Neg(psi[q])])
=============================================================================
