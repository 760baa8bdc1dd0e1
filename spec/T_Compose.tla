------------------------------ MODULE T_Compose -----------------------------
(* Conformance of composition.  A history builds circuits, composes them (the *)
(* results can be composed again), edits any of them in between, and shows     *)
(* the public attributes of the circuits involved after every call.            *)
EXTENDS T_Circuit, Compose

CInit(t) == <<>>

LookAt(t, cs, obs) ==
  UNION {Look(t, cs[obs[i][1]], NoSel, obs[i][2]) : i \in 1..Len(obs)}
Old(t, cs, obs, k) ==
  UNION {LET b == Look(t, cs[obs[i][1]], NoSel, obs[i][2]) IN {"operand-" \o x : x \in b}
         : i \in {i \in 1..Len(obs) : obs[i][1] # k}}
New(t, cs, obs, k) ==
  UNION {Look(t, cs[obs[i][1]], NoSel, obs[i][2]) : i \in {i \in 1..Len(obs) : obs[i][1] = k}}

RECURSIVE SeqAll(_, _), ParAll(_, _)
SeqAll(c, rest) == IF rest = <<>> THEN c ELSE SeqAll(Seq2(c, rest[1]), Tail(rest))
ParAll(c, rest) == IF rest = <<>> THEN c ELSE ParAll(Side2(c, rest[1]), Tail(rest))
CanFold(cs) == Len(cs) > 0 /\ \A i \in 1..(Len(cs) - 1) : Len(cs[i].O) = Len(cs[i + 1].I)

Composed(t, s, e, can, next) ==
  LET k == Len(s) + 1
      s2 == IF can THEN Append(s, next) ELSE s
      b == Chk("accepted-invalid-" \o e.op, can \/ e.res = "error")
           \cup Chk("rejected-valid-" \o e.op, ~can \/ e.res = "ok") IN
  [st |-> s2,
   bad |-> IF b # {} THEN b
           ELSE Old(t, s2, e.obs, k) \cup {e.op \o "-" \o x : x \in New(t, s2, e.obs, k)}]

Edited(t, s, e, can, next) ==
  LET s2 == IF can THEN [s EXCEPT ![e.c] = next] ELSE s
      b == Chk("accepted-invalid-" \o e.op, can \/ e.res = "error")
           \cup Chk("rejected-valid-" \o e.op, ~can \/ e.res = "ok") IN
  [st |-> s2, bad |-> IF b # {} THEN b ELSE Old(t, s2, e.obs, e.c) \cup New(t, s2, e.obs, e.c)]

CStep(t, s, e) ==
  CASE e.op = "part" ->
         Composed(t, s, e, TRUE,
                  NewCircuit(FromEdges(0..(e.n - 1), e.edges), e.I, e.O, M(e.dflt), Given(e.given)))
    [] e.op = "hstack" ->
         LET cs == [i \in 1..Len(e.args) |-> s[e.args[i]]]
             can == CanFold(cs) IN
         Composed(t, s, e, can, IF can THEN SeqAll(cs[1], Tail(cs)) ELSE <<>>)
    [] e.op = "vstack" ->
         LET cs == [i \in 1..Len(e.args) |-> s[e.args[i]]]
             can == Len(cs) > 0 IN
         Composed(t, s, e, can, IF can THEN ParAll(cs[1], Tail(cs)) ELSE <<>>)
    [] e.op = "merge" ->
         LET a == s[e.args[1]]
             b == s[e.args[2]]
             can == ValidPairs(a, b, Pairs(e.pairs), Len(e.pairs)) IN
         Composed(t, s, e, can, IF can THEN Glue(a, b, Pairs(e.pairs)) ELSE <<>>)
    [] e.op = "set" -> Edited(t, s, e, CanSet(s[e.c], e.v, M(e.m)), DoSet(s[e.c], e.v, M(e.m)))
    [] e.op = "del" -> Edited(t, s, e, CanDelete(s[e.c], e.v), DoDelete(s[e.c], e.v))
    [] e.op = "edges" -> Edited(t, s, e, TRUE, DoEdges(s[e.c], PairSets(e.edges)))
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
=============================================================================
