------------------------------ MODULE T_Trace ------------------------------
(* Histories of partial traces: every answer is traced again.                  *)
EXTENDS PTrace, Replay

P2(x) == <<x[1], x[2]>>
Mat(m) == [a \in 1..Len(m) |-> [b \in 1..Len(m[a]) |-> P2(m[a][b])]]
Vec(v) == [a \in 1..Len(v) |-> P2(v[a])]
Say(x) == PrintT("@@R " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(x))

PInit(t) == [n |-> t.n, rho |-> Mat(t.rho)]

PStep(t, s, e) ==
  CASE e.op = "pure" ->
         LET want == Outer(Vec(e.psi)) IN
         [st |-> [n |-> e.n, rho |-> want], bad |-> Chk("density-matrix", e.ok /\ Mat(e.res) = want)]
    [] e.op = "trace" ->
         LET S == ToSet(e.idx)
             want == PartialTrace(s.rho, s.n, S) IN
         [st |-> [n |-> s.n - Cardinality(S), rho |-> want],
          bad |-> IF ~e.ok THEN {"trace-failed"} ELSE Chk("reduced-state", Mat(e.res) = want)]
    [] e.op = "product" ->
         LET psi == Vec(e.psi) IN
         IF Product(Vec(e.phi), e.rest, Vec(e.chi), e.idx) # psi THEN Assert(FALSE, "not the product")
         ELSE [st |-> IF Say(PartialTrace(Outer(psi), e.n, ToSet(e.idx))) THEN s ELSE s,
               bad |-> Chk("trace-failed", e.ok)]
    [] e.op = "reject" -> [st |-> s, bad |-> Chk("accepted-invalid", ~e.ok)]
=============================================================================
