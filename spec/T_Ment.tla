-------------------------------- MODULE T_Ment -----------------------------
(* Histories of measurements: constructed, copied, given angles and nodes,     *)
(* asked for their matrices.  After every event all of them are observed.      *)
EXTENDS Ment, Replay

P2(x) == <<x[1], x[2]>>
Say(x) == PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x))

(* m as observed: plane, angle, role, and the outcome it exposes *)
SameMent(m, o) ==
     Chk("plane", o.p = m.p)
  \cup Chk("has-angle", o.free = m.free)
  \cup Chk("angle", o.free \/ m.free \/ (P2(o.t) = m.t /\ P2(o.u) = m.u))
  \cup Chk("trainable", o.train = Trainable(m))
  \cup Chk("node", m.node = -2 \/ o.node = m.node)
  \cup Chk("outcome-reads", m.node < 0 \/ (ToSet(o.reads) = {m.node} /\ o.val = o.expect))

Observed(ms, obs) ==
  Chk("how-many", Len(obs) = Len(ms)) \cup
  (IF Len(obs) # Len(ms) THEN {} ELSE UNION {SameMent(ms[i], obs[i]) : i \in 1..Len(ms)})

MInit(t) == <<>>

MStep(t, s, e) ==
  LET new ==
        CASE e.op = "new" ->
               IF Accepts(e.p, e.given, P2(e.t), P2(e.u)) THEN Append(s, Make(e.p, e.given, P2(e.t), P2(e.u))) ELSE s
          [] e.op = "copy" -> Append(s, [s[e.i] EXCEPT !.node = IF e.deep THEN @ ELSE -2])
          [] e.op = "place" -> [s EXCEPT ![e.i].node = e.v]
          [] e.op = "angle" -> [s EXCEPT ![e.i].free = ~e.given,
                                         ![e.i].t = IF e.given THEN P2(e.t) ELSE <<0, 0>>,
                                         ![e.i].u = IF e.given /\ s[e.i].p = "XYZ" THEN P2(e.u) ELSE <<0, 0>>]
          [] OTHER -> s
      res ==
        CASE e.op = "new" -> IF Accepts(e.p, e.given, P2(e.t), P2(e.u)) THEN Chk("rejected", e.ok) ELSE Chk("accepted-invalid", ~e.ok)
          [] e.op \in {"copy", "place", "angle"} -> Chk("failed", e.ok)
          [] e.op = "matrix" ->
               LET m == s[e.i] IN
               IF ~Usable(m, e.given, P2(e.t), P2(e.u))
                 THEN Chk(IF m.free THEN "matrix-without-angle" ELSE "matrix-at-another-angle", ~e.ok)
                 ELSE LET w == Used(m, e.given, P2(e.t), P2(e.u)) IN
                      IF Say([unit |-> Unit(w.p, w.t, w.u), m |-> Observable(w.p, w.t, w.u),
                              p0 |-> Projector(w.p, w.t, w.u, 0), p1 |-> Projector(w.p, w.t, w.u, 1)])
                        THEN Chk("matrix-failed", e.ok) ELSE {}
  IN [st |-> new, bad |-> res \cup Observed(new, e.obs)]
=============================================================================
