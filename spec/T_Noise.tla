------------------------------- MODULE T_Noise ------------------------------
(* Evaluates what noisy patterns prescribe: density matrices of the outputs,  *)
(* printed exactly and unnormalised, to be compared with the real ones.       *)
EXTENDS Noise, Replay

EdgesOf(r) == {<<p[1], p[2]>> : p \in ToSet(r.edges)}

(* e: n, edges, I, O, in, ms: [[v, p, t]] in the order measured, ch *)
(* there is one flow, and the order must be one it allows *)
Lawful(e, nb, ly) ==
  /\ DOMAIN ly = 0..(e.n - 1)
  /\ Len(e.I) = Len(e.O)
  /\ \A i \in 1..Len(e.ms) : e.ms[i].v \notin ToSet(e.O)
  /\ Cardinality({e.ms[i].v : i \in 1..Len(e.ms)}) = e.n - Len(e.O)
  /\ LET f == FlowOfLayers(nb, ToSet(e.I), ToSet(e.O), ly) IN
     \A i, j \in 1..Len(e.ms) :
       i < j => e.ms[i].v \notin {f[e.ms[j].v]} \cup nb[f[e.ms[j].v]]
Neighbours(e) ==
  TLCEval([v \in 0..(e.n - 1) |-> {w \in 0..(e.n - 1) : <<v, w>> \in EdgesOf(e) \/ <<w, v>> \in EdgesOf(e)}])

TInit(t) == 0
TStep(t, s, e) ==
  LET nb == Neighbours(e)
      law == Lawful(e, nb, TLCEval(FlowLayers(nb, ToSet(e.I), ToSet(e.O))))
      x == IF law THEN [rho |-> NoisyRun(e.n, EdgesOf(e), e.I, e.in, e.O, e.ms, e.ch)] ELSE [rho |-> <<>>] IN
  [st |-> IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x)) THEN s + 1 ELSE s,
   bad |-> {}]
=============================================================================
