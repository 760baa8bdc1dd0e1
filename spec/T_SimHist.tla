------------------------------ MODULE T_SimHist -----------------------------
(* A simulator as a state machine: the input state it holds, and how many     *)
(* nodes of its schedule it has measured.  A run and a reset start over; what  *)
(* it holds after k measurements depends on nothing else.  Expected states are *)
(* printed and compared with the real ones.                                   *)
EXTENDS T_Sim

HInit(t) == [in |-> t.in, k |-> 0, ms |-> <<>>, stuck |-> FALSE]

Measured(r) == [i \in 1..Len(r.outs) |-> r.outs[i][1]]   \* nodes in the order of the schedule

Say(x) == PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x))

(* a measurement of the k-th node at the angle given (a free one) or its own *)
StepOf(t, k, angle) ==
  LET v == Measured(t.a)[k]
      m == MentAt(t.a, v) IN
  [v |-> v, bra |-> Bra(m.p, IF m.free THEN Pair2(angle) ELSE Pair2(m.t), Pair2(m.u), 0)]

HStep(t, s, e) ==
  LET n == Len(t.a.outs)
      in2 == IF e.hasin THEN e.in ELSE s.in
      new == [in |-> in2, k |-> 0, ms |-> <<>>, stuck |-> FALSE] IN
  CASE e.op = "reset" -> [st |-> new, bad |-> Chk("reset-failed", e.res = "ok")]
    [] e.op = "run" ->
         (* a run starts from the state held if nothing was measured since the   *)
         (* last reset; an input state given resets first                         *)
         LET fresh == e.hasin \/ t.anytime \/ (s.k = 0 /\ ~s.stuck)
             x == Run([t.a EXCEPT !.angles = e.angles], in2) IN
         IF ~fresh THEN [st |-> [s EXCEPT !.stuck = TRUE],
                         bad |-> Chk("run-past-the-end", s.stuck \/ e.res = "error" \/ n = 0)]
         ELSE [st |-> IF Say(x) THEN [new EXCEPT !.k = n, !.stuck = x.zero] ELSE s,
               bad |-> Chk("run-failed", e.res = "ok" \/ x.zero)]
    [] e.op = "badrun" -> [st |-> [s EXCEPT !.stuck = TRUE], bad |-> Chk("bad-run-accepted", e.res = "error")]
    [] e.op = "measure" ->
         IF s.stuck THEN [st |-> s, bad |-> {}]
         ELSE IF s.k >= n THEN [st |-> s, bad |-> Chk("measured-past-the-end", e.res = "error")]
         ELSE LET ms2 == Append(s.ms, StepOf(t, s.k + 1, e.angle))
                  psi == WindowState(EdgesOf(t.a), t.a.I, s.in, t.sched, t.w, ms2, s.k + 1)
                  s2 == [s EXCEPT !.k = s.k + 1, !.ms = ms2] IN
              [st |-> IF Say([psi |-> psi, zero |-> IsZero(psi)])
                        THEN IF IsZero(psi) THEN [s2 EXCEPT !.stuck = TRUE] ELSE s2 ELSE s,
               bad |-> Chk("measure-failed", e.res = "ok" \/ IsZero(psi))]
=============================================================================
