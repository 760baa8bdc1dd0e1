------------------------------ MODULE T_Circuit -----------------------------
(* Conformance of circuit objects: histories of constructions, edits, order   *)
(* assignments, edge additions and copies, with the public attributes of      *)
(* every circuit (up to two: an original and its copy) after every call.      *)
(* A trace carries the groups of clauses it is checked for.                   *)
EXTENDS Draw, Replay

Oc == INSTANCE Outcome
Truth(e) ==
  IF e.k # "c" THEN {}
  ELSE IF "ex" \in DOMAIN e
       THEN {s \in SUBSET ToSet(e.cond) : Oc!EvalBool(e.ex, [v \in ToSet(e.cond) |-> IF v \in s THEN 1 ELSE 0])}
       ELSE {ToSet(x) : x \in ToSet(e.tru)}
M(e) == [k |-> e.k, p |-> e.p, a |-> e.a, tp |-> e.tp, ta |-> e.ta, cond |-> ToSet(e.cond), tru |-> Truth(e)]
Given(seq) == [v \in {x[1] : x \in ToSet(seq)} |-> M((CHOOSE x \in ToSet(seq) : x[1] = v)[2])]
Pairs(seq) == {<<p[1], p[2]>> : p \in ToSet(seq)}
PairSets(seq) == {{p[1], p[2]} : p \in ToSet(seq)}
FunOf(seq) == [x \in {p[1] : p \in ToSet(seq)} |-> (CHOOSE p \in ToSet(seq) : p[1] = x)[2]]
NoDup(seq) == Len(seq) = Cardinality(ToSet(seq))

(* state: cs = the circuits; ord = the order each of them listed last;         *)
(* ref = the first recorded attributes (to compare equal constructions);       *)
(* sel = the trainable nodes the user assigned to each circuit, until its       *)
(* measurements change (on = "no": none; "maybe": they may also have been       *)
(* derived again, as when the circuit is rebuilt over a new graph)              *)
NoSel == [on |-> "no", t |-> <<>>]
TInit(t) == [cs |-> <<>>, ord |-> <<>>, ref |-> <<>>, sel |-> <<>>]

AttrClauses(c, o) ==
  Chk("trainable", NoDup(o.train) /\ ToSet(o.train) = Trainable(c))
  \cup Chk("controlled", NoDup(o.ctrl) /\ ToSet(o.ctrl) = Controlled(c))
  \cup Chk("quantum-outputs", o.qo = QuantumOut(c))
  \cup Chk("classical-outputs", o.co = ClassicalOut(c))
  \cup Chk("planes", LET f == FunOf(o.planes) IN
                     DOMAIN f = Nd(c) /\ \A v \in Nd(c) \ Controlled(c) : f[v] = PlaneOf(c, v))
  \cup Chk("stored-measurement", Given(o.ments) = c.m)
  \cup Chk("own-outcome", ToSet(o.own) = {v \in Nd(c) : c.m[v].k # "none"})

(* layers from the first to the outputs; without the last as indices of        *)
(* trainable nodes; circuits without causal flow may have other layers          *)
LayerSeq(ly) == [i \in 1..(Depth(ly) + 1) |-> {v \in DOMAIN ly : ly[v] = Depth(ly) + 1 - i}]
LayerClauses(c, ly, o) ==
  IF ~FlowExists(c, ly) \/ ~o.haslay THEN {}
  ELSE LET want == TLCEval(LayerSeq(ly)) IN
       Chk("layers", /\ Len(o.lay) = Len(want)
                     /\ \A i \in 1..Len(want) : NoDup(o.lay[i]) /\ ToSet(o.lay[i]) = want[i])
       \cup Chk("trainable-layers", /\ Len(o.tlay) = Len(want) - 1
                     /\ \A i \in 1..Len(o.tlay) :
                          NoDup(o.tlay[i]) /\ ToSet(o.tlay[i]) = {j - 1 : j \in {k \in 1..Len(o.train) : o.train[k] \in want[i]}})

GraphClauses(c, o) ==
  Chk("nodes", o.nodes = [i \in 1..Cardinality(Nd(c)) |-> i - 1] /\ o.len = Cardinality(Nd(c)))
  \cup Chk("edges", Len(o.edges) = Cardinality(PairSets(o.edges)) /\ PairSets(o.edges) = EdgeSet(c.nb))
  \cup Chk("inputs", o.I = c.I)
  \cup Chk("outputs", o.O = c.O)
  \cup Chk("complements", ToSet(o.oc) = OutC(c) /\ NoDup(o.oc)
                          /\ ToSet(o.ic) = Nd(c) \ ToSet(c.I) /\ NoDup(o.ic))
  \cup Chk("measurements-kept", Given(o.ments) = c.m)

FlowChecks(c, ly, o) ==
  Chk("flow-exists", o.hasflow = FlowExists(c, ly))
  \cup (IF ~FlowExists(c, ly) \/ ~o.hasflow THEN {} ELSE
          LET fc == FlowClauses(c.nb, ToSet(c.I), ToSet(c.O), FunOf(o.f), FlowOrder(c, ly)) IN
          Chk("flow-function", \A k \in DOMAIN fc : fc[k])
          \cup Chk("depth", o.depth = Depth(ly)))

(* given = the order the caller gave to the constructor, if any; when it       *)
(* breaks the partial order the caller is on their own                         *)
OrderClauses(c, ly, o) ==
  IF ~FlowExists(c, ly) \/ ~Consistent(c, ly) THEN {}
  ELSE Chk("order-missing", o.hasorder)
       \cup (IF ~o.hasorder THEN {} ELSE
               Chk("order-permutation", IsPermutationOf(o.order, Nd(c)))
               \cup Chk("order-legal", Respects(o.order, PartialOrder(c, ly)))
               \cup Chk("partial-order", Pairs(o.po) = PartialOrder(c, ly)))

(* colours and labels as drawn                                                 *)
ColourClauses(c, shown, style) ==
  Chk("colours-" \o style, Len(shown) = Cardinality(Nd(c)) /\ FunOf(shown) = [v \in Nd(c) |-> Colour(c, v, style)])
LabelClauses(c, shown, option) ==
  Chk("labels-" \o option, Len(shown) = Cardinality(Nd(c)) /\ FunOf(shown) = [v \in Nd(c) |-> Label(c, v, option)])
DrawClauses(c, o) ==
  UNION {ColourClauses(c, o.col[s], s) : s \in Styles}
  \cup UNION {LabelClauses(c, o.lab[k], k) : k \in Options \ {"indices"}}
(* a picture: positions and the texts and colours found there                  *)
Rows(c, o, spots) ==
  LET f == FunOf(o.f)
      at == FunOf(spots)
      ws == {WireFrom(c, f, c.I[i]) : i \in 1..Len(c.I)} IN
  /\ \A w \in ws : \A i, j \in 1..Len(w) : i < j => at[w[i]][2] = at[w[j]][2] /\ at[w[i]][1] < at[w[j]][1]
  /\ \A w, x \in ws : w # x => at[w[1]][2] # at[x[1]][2]
(* rows given by the caller: nodes in order, with gaps (-1), in columns        *)
GivenRows(rows, at) ==
  \A i, j \in 1..Len(rows) : \A k \in 1..Len(rows[i]) : \A l \in 1..Len(rows[j]) :
    LET v == rows[i][k]
        w == rows[j][l] IN
    v < 0 \/ w < 0 \/ (/\ (at[v][2] = at[w][2]) = (i = j)
                      /\ (at[v][2] > at[w][2]) = (i < j)
                      /\ (at[v][1] = at[w][1]) = (k = l)
                      /\ (at[v][1] < at[w][1]) = (k < l))
PictureClauses(c, e) ==
  LET o == e.obs[e.c] IN
  Chk("drawing-failed", e.res = "ok") \cup
  (IF e.res # "ok" THEN {} ELSE
   (IF e.option = "indices"
      THEN Chk("drawn-nodes", {p[1] : p \in ToSet(e.col)} = Nd(c) /\ ToSet(e.texts) = {<<"index", v>> : v \in Nd(c)})
           \cup Chk("drawn-colours", FunOf(e.col) = [v \in Nd(c) |-> Colour(c, v, e.style)])
           \cup Chk("drawn-wires", o.hasflow /\ e.rows = <<>> => Rows(c, o, e.pos))
           \cup Chk("drawn-rows", GivenRows(e.rows, FunOf(e.pos)))
           \cup Chk("drawn-edges", PairSets(e.lines) = EdgeSet(c.nb))
           \cup Chk("drawn-flow", Pairs(e.arrows) = IF o.hasflow /\ e.showflow THEN Pairs(o.f) ELSE {})
           \cup Chk("drawn-controls", PairSets(e.dashed) =
                     IF e.showctrl THEN UNION {{{v, w} : w \in c.m[v].cond} : v \in Controlled(c)} ELSE {})
      ELSE Chk("drawn-labels", Len(e.texts) = Cardinality(Nd(c)) /\
                \A x \in ToSet(e.texts) \cup {Label(c, v, e.option) : v \in Nd(c)} :
                  Cardinality({i \in 1..Len(e.texts) : e.texts[i] = x})
                  = Cardinality({v \in Nd(c) : Label(c, v, e.option) = x}))))

SelClauses(c, sel, o) ==
  LET a == AttrClauses(c, o) IN
  CASE sel.on = "no" -> a
    [] sel.on = "yes" -> (a \ {"trainable"}) \cup Chk("assigned-trainable", o.train = sel.t)
    [] OTHER -> IF o.train = sel.t THEN a \ {"trainable"} ELSE a

Look(t, c, sel, o) ==
  LET ly == FlowOf(c) IN
  (IF "attr" \in ToSet(t.scope) THEN SelClauses(c, sel, o) \cup LayerClauses(c, ly, o) ELSE {})
  \cup (IF "graph" \in ToSet(t.scope) THEN GraphClauses(c, o) \cup FlowChecks(c, ly, o) ELSE {})
  \cup (IF "order" \in ToSet(t.scope) THEN OrderClauses(c, ly, o) ELSE {})
  \cup (IF "draw" \in ToSet(t.scope) THEN DrawClauses(c, o) ELSE {})

LookAll(t, cs, sel, obs) ==
  IF Len(obs) # Len(cs) THEN {"observation-count"}
  ELSE UNION {LET b == Look(t, cs[i], sel[i], obs[i]) IN
              IF i = 1 THEN b ELSE {"copy-" \o x : x \in b} : i \in 1..Len(cs)}

Forget(e, sel) == IF e.op = "edges" /\ sel.on # "no" THEN [sel EXCEPT !.on = "maybe"] ELSE NoSel
Put(s, e, c) == [s EXCEPT !.cs = [s.cs EXCEPT ![e.c] = c], !.sel = [s.sel EXCEPT ![e.c] = Forget(e, s.sel[e.c])]]

(* outcome of a call: accepted exactly when it must be *)
Verdict(t, s, e, can, next) ==
  LET s2 == IF can THEN Put(s, e, next) ELSE s
      b == Chk("accepted-invalid-" \o e.op, can \/ e.res = "error")
           \cup Chk("rejected-valid-" \o e.op, ~can \/ e.res = "ok") IN
  [st |-> [s2 EXCEPT !.ord = [i \in 1..Len(e.obs) |-> e.obs[i].order]],
   bad |-> IF b # {} THEN b ELSE LookAll(t, s2.cs, s2.sel, e.obs)]

TStep(t, s, e) ==
  CASE e.op = "new" ->
         LET V == 0..(e.n - 1)
             ok == e.valid
             c == NewCircuit(FromEdges(V, e.edges), e.I, e.O, M(e.dflt), Given(e.given)) IN
         [ st |-> IF ok THEN [cs |-> <<c>>, ord |-> <<IF Len(e.obs) = 1 THEN e.obs[1].order ELSE <<>>>>,
                              ref |-> IF Len(e.obs) = 1 THEN <<e.obs[1]>> ELSE <<>>, sel |-> <<NoSel>>] ELSE s,
           bad |-> Chk("accepted-invalid-construction", ok \/ e.res = "error")
                   \cup Chk("rejected-valid-construction", ~ok \/ e.res = "ok")
                   \cup Chk("arguments-modified", ~e.touched)
                   \cup (IF ok /\ e.res = "ok"
                           THEN LookAll(t, <<c>>, <<NoSel>>, e.obs)
                                \cup (IF Len(e.order) > 0 /\ Len(e.obs) = 1
                                        THEN Chk("given-order", e.obs[1].order = e.order) ELSE {})
                           ELSE {}) ]
    [] e.op = "newflow" ->   \* the caller gives a flow and an order (the layers), in its labels
         LET V == 0..(e.n - 1)
             nb == FromEdges(V, e.edges)
             ly == FlowLayers(nb, ToSet(e.I), ToSet(e.O))
             po == {x \in V \X V : ly[x[1]] > ly[x[2]]} IN
         [ st |-> s,
           bad |-> Chk("rejected-valid-construction", e.res = "ok")
                   \cup (IF e.res # "ok" THEN {} ELSE
                           Chk("given-flow-relabelled", FunOf(e.of) = FunOf(e.f))
                           \cup Chk("given-partial-order-relabelled", Pairs(e.opo) = po)
                           \cup Chk("order-of-given-flow", IsPermutationOf(e.oorder, V) /\ Respects(e.oorder, po))) ]
    [] e.op = "again" ->   \* same circuit, built from the same graph inserted in another order
         [ st |-> s,
           bad |-> Chk("rejected-valid-construction", e.res = "ok")
                   \cup Chk("arguments-modified", ~e.touched)
                   \cup (IF e.res = "ok" THEN
                           UNION {Chk("insertion-order-" \o k, e.obs[1][k] = s.ref[1][k])
                                  : k \in (DOMAIN e.obs[1]) \ {"edges"}}
                           \cup Chk("insertion-order-edges", PairSets(e.obs[1].edges) = PairSets(s.ref[1].edges))
                         ELSE {}) ]
    [] e.op = "set" -> Verdict(t, s, e, e.wellformed /\ CanSet(s.cs[e.c], e.v, M(e.m)),
                               IF e.wellformed /\ e.v \in Nd(s.cs[e.c])
                                 THEN DoSet(s.cs[e.c], e.v, M(e.m)) ELSE s.cs[e.c])
    [] e.op = "del" -> Verdict(t, s, e, CanDelete(s.cs[e.c], e.v),
                               IF e.v \in Nd(s.cs[e.c]) THEN DoDelete(s.cs[e.c], e.v) ELSE s.cs[e.c])
    [] e.op = "setall" -> Verdict(t, s, e, e.wellformed /\ CanSetAll(s.cs[e.c], Given(e.given)),
                               DoSetAll(s.cs[e.c], Given(e.given)))
    [] e.op = "edges" -> Verdict(t, s, e, e.wellformed,
                               IF e.wellformed THEN DoEdges(s.cs[e.c], PairSets(e.edges)) ELSE s.cs[e.c])
    [] e.op = "order" ->
         LET c == s.cs[e.c]
             ly == FlowOf(c)
             known == FlowExists(c, ly) /\ Consistent(c, ly)
             legal == known /\ LegalOrder(c, ly, e.order) IN
         [ st |-> [s EXCEPT !.ord = [i \in 1..Len(e.obs) |-> e.obs[i].order]],
           bad |-> IF ~known THEN {}
                   ELSE Chk("accepted-illegal-order", legal \/ e.res = "error")
                        \cup Chk("rejected-legal-order", ~legal \/ e.res = "ok")
                        \cup Chk("order-not-kept", e.obs[e.c].order =
                                   IF legal THEN e.order ELSE s.ord[e.c])
                        \cup LookAll(t, s.cs, s.sel, e.obs) ]
    [] e.op = "train" ->   \* the user's trainable nodes, in the order of the angles
         LET ok == ToSet(e.nodes) \subseteq Nd(s.cs[e.c])
             s2 == IF ok THEN [s EXCEPT !.sel = [s.sel EXCEPT ![e.c] = [on |-> "yes", t |-> e.nodes]]] ELSE s IN
         [ st |-> [s2 EXCEPT !.ord = [i \in 1..Len(e.obs) |-> e.obs[i].order]],
           bad |-> Chk("accepted-unknown-trainable-nodes", ok \/ e.res = "error")
                   \cup Chk("rejected-trainable-nodes", ~ok \/ e.res = "ok")
                   \cup LookAll(t, s2.cs, s2.sel, e.obs) ]
    [] e.op = "copy" ->   \* the copy of circuit e.c becomes the second circuit
         LET s2 == [s EXCEPT !.cs = <<s.cs[e.c], s.cs[e.c]>>, !.sel = <<s.sel[e.c], s.sel[e.c]>>] IN
         [ st |-> [s2 EXCEPT !.ord = [i \in 1..Len(e.obs) |-> e.obs[i].order]],
           bad |-> Chk("copy-failed", e.res = "ok") \cup
                   (IF e.res = "ok" THEN LookAll(t, s2.cs, s2.sel, e.obs)
                                         \cup Chk("copy-order", e.obs[1].order = e.obs[2].order)
                    ELSE {}) ]
    [] e.op = "draw" ->   \* drawing changes nothing
         [ st |-> s, bad |-> PictureClauses(s.cs[e.c], e) \cup Chk("changed-by-drawing", e.same) \cup LookAll(t, s.cs, s.sel, e.obs) ]
    [] e.op = "pauli" ->
         [ st |-> s, bad |-> Chk("pauli-labels", Len(e.d) = e.n /\ FunOf(e.d) = [v \in 0..(e.n - 1) |-> e.letters[(CHOOSE k \in 1..e.n : e.order[k] = v)]])
                             \cup Chk("drawn-pauli-labels", e.drawn = [i \in 1..e.n |-> e.letters[(CHOOSE k \in 1..e.n : e.order[k] = i - 1)]])
                             \cup Chk("graph-state-not-drawn", e.res = "ok" /\ e.texts = e.names /\ e.same) ]
    [] e.op = "badoption" -> [ st |-> s, bad |-> Chk("accepted-unknown-option", e.res = "error") ]
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
=============================================================================
