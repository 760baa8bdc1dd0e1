-------------------------------- MODULE T_Grad -----------------------------
(* Recorded gradients and Hessians: the exact ones, to be compared.            *)
EXTENDS Grad, Replay
P2(x) == <<x[1], x[2]>>
Terms(p) == [k \in 1..Len(p) |-> [c |-> p[k].c, fs |-> p[k].fs]]
Point(x) == [i \in 1..Len(x) |-> P2(x[i])]
Answer(e) ==
  IF e.kind = "trig"
    THEN LET p == Terms(e.p) x == Point(e.x) IN
         [scale |-> ScaleAt(x), value |-> Value(p, x),
          d |-> IF e.what = "gradient" THEN <<Gradient(p, x)>> ELSE Hessian(p, x)]
    ELSE LET f == [a |-> e.p.a, b |-> e.p.b, q |-> e.p.q] IN
         [scale |-> 1, value |-> QValue(f, e.x),
          d |-> IF e.what = "gradient" THEN <<QGradient(f, e.x)>> ELSE QHessian(f)]
DInit(t) == 0
DStep(t, s, e) ==
  [st |-> s,
   bad |-> IF e.kind = "reject" THEN Chk("accepted-unknown-method", ~e.ok)
           ELSE IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(Answer(e)))
                  THEN Chk("failed", e.ok) \cup Chk("point-modified", e.same) ELSE {}]
=============================================================================
