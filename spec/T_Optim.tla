------------------------------- MODULE T_Optim -----------------------------
(* Recorded histories of optimizers: what each update must be.                 *)
EXTENDS Optim, Replay
F2(x) == <<x[1], x[2]>>
(* t: kind sgd / adam / rcd / quad; hyperparameters; step sizes are a / D       *)
OInit(t) == IF t.kind = "quad" THEN [x |-> t.x, v |-> Zeros(Len(t.x))]
            ELSE [mem |-> IF t.kind = "sgd" THEN SgdNew(t.n) ELSE IF t.kind = "adam" THEN AdamNew(t.n) ELSE [k |-> 0],
                  a |-> t.a, counts |-> Zeros(t.n)]
New(t) == OInit(t).mem
Out(r) == PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(r))
Sgd(t, s, e) ==
  LET m == SgdNext(s.mem, F2(t.mom), s.a, e.g) IN
  [mem |-> m, ans |-> [move |-> SgdMove(m, F2(t.mom), t.nesterov, s.a, e.g), den |-> SgdDen(m, F2(t.mom), t.nesterov), norm |-> NormSq(e.g)]]
(* a run with one gradient: the memory only remembers it                        *)
Steady(t, s, e) ==
  IF s.mem.k # e.i \/ (e.i > 0 /\ s.mem.m # e.g) THEN Assert(FALSE, "not a steady run")
  ELSE [mem |-> [k |-> e.i + 1, m |-> e.g, s |-> s.mem.s], ans |-> [hat |-> SteadyHat(e.g), a |-> s.a, norm |-> NormSq(e.g)]]
Adam(t, s, e) ==
  IF t.steady THEN Steady(t, s, e) ELSE
  LET m == AdamNext(s.mem, F2(t.b1), F2(t.b2), e.g) IN
  [mem |-> m, ans |-> [hat |-> AdamHat(m, F2(t.b1), F2(t.b2), e.i), a |-> s.a, norm |-> NormSq(e.g)]]
Rcd(t, s, e) ==
  [mem |-> s.mem,
   ans |-> [moves |-> [j \in 1..t.n |-> MulBy(s.a, RcdMove(e.g, j))], norms |-> Square(e.g), counts |-> [j \in 1..t.n |-> s.counts[j] + 1]]]
OStep(t, s, e) ==
  CASE e.op = "grad" ->
         LET r == IF t.kind = "sgd" THEN Sgd(t, s, e) ELSE IF t.kind = "adam" THEN Adam(t, s, e) ELSE Rcd(t, s, e)
             ok == t.kind # "rcd" \/ e.j >= 0 IN
         [st |-> [s EXCEPT !.mem = r.mem, !.counts = [j \in 1..t.n |-> s.counts[j] + (IF e.j = j THEN 1 ELSE 0)]],
          bad |-> IF Out(r.ans) THEN Chk("more-than-one-coordinate-moved", ok) ELSE {}]
    [] e.op = "reset" -> [st |-> [s EXCEPT !.mem = New(t)], bad |-> {}]
    [] e.op = "scale" -> [st |-> [s EXCEPT !.a = Exactly(<<s.a * e.p>>, e.q)[1]], bad |-> {}]
    [] e.op = "set" -> [st |-> [s EXCEPT !.a = e.a], bad |-> {}]
    [] e.op = "begin" -> [st |-> [s EXCEPT !.counts = Zeros(t.n)], bad |-> {}]
    [] e.op = "end" ->
         [st |-> s,
          bad |-> Chk("failed", e.ok) \cup
                  (IF ~e.ok THEN {} ELSE
                   Chk("callback-calls", e.calls = [i \in 1..(IF e.back THEN e.n ELSE 0) |-> i - 1])
                   \cup Chk("norms-count", e.norms = e.n)
                   \cup Chk("starting-point-modified", e.same)
                   \cup Chk("iterate-modified-later", e.kept))]
    [] e.op = "chosen" -> [st |-> s, bad |-> Chk("coordinate-never-chosen", {e.seen[i] : i \in 1..Len(e.seen)} = 1..t.n)]
    [] e.op = "quad" ->
         LET r == QuadStep(t.H, t.b, t.S, F2(t.mom), t.nesterov, t.den, s.x, s.v) IN
         [st |-> r, bad |-> IF Out([x |-> r.x, norm |-> GradAt(t.H, t.b, s.x, t.S)]) THEN {} ELSE {}]
=============================================================================
