------------------------------- MODULE T_Pauli ------------------------------
(* Conformance of Pauli operator objects: a heap of objects with value         *)
(* semantics, built, multiplied, indexed and edited in any order; after every   *)
(* call the forms of every object are shown.                                    *)
EXTENDS Pauli, Replay

PInit(t) == <<>>

Shown(o, x) ==
  Chk("string-form", x.txt = o)
  \cup Chk("matrix-form", x.mat = Matrix(o))
  \cup Chk("length", x.len = Len(o))
  \cup Chk("qubits", x.nq = Len(o[1]))
  \cup Chk("items", x.items = [i \in 1..Len(o) |-> <<o[i]>>])
ShowAll(s, obs) ==
  IF Len(obs) # Len(s) THEN {"observation-count"} ELSE UNION {Shown(s[i], obs[i]) : i \in 1..Len(s)}

(* a call that makes a new object, or raises *)
Make(s, e, can, o) ==
  LET s2 == IF can THEN Append(s, o) ELSE s
      b == Chk("accepted-malformed-" \o e.op, can \/ e.res = "error")
           \cup Chk("rejected-valid-" \o e.op, ~can \/ e.res = "ok") IN
  [st |-> s2, bad |-> IF b # {} THEN b ELSE {e.op \o ":" \o x : x \in ShowAll(s2, e.obs)}]
(* a call that answers something *)
Answer(s, e, can, v) ==
  [st |-> s, bad |-> Chk("accepted-malformed-" \o e.op, can \/ e.res = "error")
                     \cup Chk("rejected-valid-" \o e.op, ~can \/ e.res = "ok")
                     \cup Chk(e.op \o "-value", ~can \/ e.res = "error" \/ e.val = v)
                     \cup ShowAll(s, e.obs)]

Same(s, e) == Len(s[e.a][1]) = Len(s[e.b][1])
PStep(t, s, e) ==
  CASE e.op = "words" -> Make(s, e, IsOp(e.words), e.words)
    [] e.op = "matrix" -> Make(s, e, IsMatrix(e.rows), IF IsMatrix(e.rows) THEN [i \in 1..Len(e.rows) |-> Word(e.rows[i])] ELSE <<>>)
    [] e.op = "other" -> Make(s, e, FALSE, <<>>)
    [] e.op = "mul" ->
         LET can == Same(s, e) /\ Len(s[e.a]) = Len(s[e.b]) IN
         Make(s, e, can, IF can THEN Prod(s[e.a], s[e.b]) ELSE <<>>)
    [] e.op = "commutator" ->      \* of single operators
         LET v == s[e.a][1]
             w == s[e.b][1] IN
         IF Sym(v, w) = 0 THEN Answer(s, e, TRUE, "zero") ELSE Make(s, e, e.val = "op", <<WordTimes(v, w)>>)
    [] e.op = "sympl" -> Answer(s, e, Same(s, e), IF Same(s, e) THEN SymMat(s[e.a], s[e.b]) ELSE <<>>)
    [] e.op = "append" ->
         LET can == Same(s, e)
             s2 == IF can THEN [s EXCEPT ![e.a] = s[e.a] \o s[e.b]] ELSE s IN
         [st |-> s2, bad |-> Chk("accepted-malformed-append", can \/ e.res = "error")
                             \cup Chk("rejected-valid-append", ~can \/ e.res = "ok")
                             \cup {"append:" \o x : x \in ShowAll(s2, e.obs)}]
    [] e.op = "get" ->
         LET n == Len(s[e.a])
             can == e.i < n /\ e.i >= -n IN
         Make(s, e, can, IF can THEN <<s[e.a][(IF e.i < 0 THEN e.i + n ELSE e.i) + 1]>> ELSE <<>>)
    [] e.op = "slice" ->           \* idx = the positions the slice selects, from 0
         Make(s, e, TRUE, [i \in 1..Len(e.idx) |-> s[e.a][e.idx[i] + 1]])
    [] e.op = "subset" ->
         LET can == Len(e.idx) > 0 /\ \A i \in 1..Len(e.idx) : e.idx[i] \in 0..(Len(s[e.a][1]) - 1) IN
         Make(s, e, can, IF can THEN Sub(s[e.a], e.idx) ELSE <<>>)
    [] e.op = "contains" -> Answer(s, e, TRUE, Has(s[e.a], s[e.b]))
    [] e.op = "equal" ->
         [st |-> s, bad |-> Chk("equal-value", e.val = (s[e.a] = s[e.b]))
                            \cup Chk("unequal-value", e.ne = (s[e.a] # s[e.b]))
                            \cup Chk("equal-but-other-hash", e.val => e.hash) \cup ShowAll(s, e.obs)]
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
=============================================================================
