------------------------------ MODULE T_Outcome ----------------------------
(* Histories of outcome expressions and of controlled measurements built from *)
(* them.  Expressions, once built, keep their value whatever is built on them. *)
EXTENDS Ment, Outcome, Replay

P2(x) == <<x[1], x[2]>>
Say(x) == PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x))

Assigned(a) == [v \in {x[1] : x \in ToSet(a)} |-> (CHOOSE x \in ToSet(a) : x[1] = v)[2]]

RECURSIVE Lifted(_)
Lifted(e) == CASE e.op = "lift" -> TRUE
               [] e.op \in {"node", "const", "mconst"} -> FALSE
               [] e.op \in {"not", "wrap"} -> Lifted(e.a)
               [] OTHER -> Lifted(e.a) \/ Lifted(e.b)

(* an evaluation: [a |-> assignment, ok, val] *)
Evaluated(e, x) ==
  LET s == Assigned(x.a) IN
  IF Defined(e, s) THEN Chk("value", x.ok /\ x.val = (IF e.op = "const" THEN Eval(e, s) % 2 ELSE Eval(e, s)))
  ELSE Chk("undefined-has-a-value", ~x.ok)
ReadsOk(e, reads) == Chk("reads", Lifted(e) \/ ToSet(reads) = Reads(e))

Branch(b) == Make(b.p, ~b.free, P2(b.t), P2(b.u))
CtlTrain(c) == c.tb.free \/ c.fb.free
Selected(c, s) == IF EvalBool(c.cond, s) THEN c.tb ELSE c.fb

CtlSeen(c, o) ==
  Chk("ctl-trainable", o.train = CtlTrain(c)) \cup
  Chk("ctl-reads", Lifted(c.cond) \/ ToSet(o.reads) = Reads(c.cond)) \cup
  UNION {LET s == Assigned(x.a) IN
         IF ~Defined(c.cond, s) THEN Chk("ctl-undefined", ~x.ok)
         ELSE LET b == Selected(c, s) IN
              Chk("ctl-raised", x.ok) \cup
              (IF ~x.ok THEN {}
               ELSE Chk("ctl-plane", x.p = b.p) \cup Chk("ctl-has-angle", x.free = b.free)
                    \cup Chk("ctl-angle", b.free \/ x.free \/ (P2(x.t) = b.t /\ P2(x.u) = b.u)))
         : x \in ToSet(o.on)}

OInit(t) == <<>>

OStep(t, s, e) ==
  LET new ==
        CASE e.op = "ctl" -> Append(s, [cond |-> e.cond, tb |-> Branch(e.tb), fb |-> Branch(e.fb)])
          [] e.op = "copy" -> Append(s, s[e.i])
          [] e.op = "cond" -> [s EXCEPT ![e.i].cond = e.cond]
          [] OTHER -> s
      res ==
        CASE e.op = "expr" -> ReadsOk(e.e, e.reads) \cup UNION {Evaluated(e.e, x) : x \in ToSet(e.on)}
          [] e.op \in {"ctl", "copy", "cond"} -> Chk("failed", e.ok)
          [] e.op = "badcond" -> Chk("bad-condition-accepted", ~e.ok)
          [] e.op = "matrix" ->
               LET c == s[e.i]
                   a == Assigned(e.a)
                   b == Selected(c, a) IN
               IF (~CtlTrain(c) /\ e.given) \/ (b.free /\ ~e.given) THEN Chk("matrix-accepted", ~e.ok)
               ELSE LET w == Used(b, e.given, P2(e.t), <<0, 0>>) IN
                    IF Say([unit |-> Unit(w.p, w.t, w.u), m |-> Observable(w.p, w.t, w.u),
                            p0 |-> Projector(w.p, w.t, w.u, 0), p1 |-> Projector(w.p, w.t, w.u, 1)])
                      THEN Chk("matrix-failed", e.ok) ELSE {}
      seen == IF e.op = "expr" THEN {}
              ELSE IF Len(e.obs) # Len(new) THEN {"how-many"}
              ELSE UNION {CtlSeen(new[i], e.obs[i]) : i \in 1..Len(new)}
  IN [st |-> new, bad |-> res \cup seen]
=============================================================================
