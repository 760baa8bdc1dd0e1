---------------------------- MODULE T_PauliExp ----------------------------
(* Recorded runs of templates built from Pauli operators: for each the two     *)
(* candidate states (the two signs), to be compared with the real one.         *)
EXTENDS PauliExp, Replay
Q(x) == <<x[1], x[2], x[3], x[4]>>
RInit(t) == 0
RStep(t, s, e) ==
  [st |-> s,
   bad |->
     CASE e.op = "run" ->
            LET psi == [i \in 1..Len(e.in) |-> Q(e.in[i])]
                h == <<e.h[1], e.h[2]>>
                x == [plus |-> Rotated(t.w, 1, h, psi), minus |-> Rotated(t.w, -1, h, psi)] IN
            IF PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x)) THEN Chk("run-failed", e.ok) ELSE {}
       [] e.op = "built" -> Chk("build-failed", e.ok) \cup
            (IF e.ok THEN Chk("sizes", e.ins = Len(t.w) /\ e.outs = Len(t.w)) \cup Chk("one-angle", e.train = 1) ELSE {})
       [] e.op = "reject" -> Chk("accepted-invalid", ~e.ok)]
=============================================================================
