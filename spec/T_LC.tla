-------------------------------- MODULE T_LC --------------------------------
(* Conformance of the local-equivalence decision and of the flow space.        *)
EXTENDS LC, Replay

LInit(t) == <<>>
RECURSIVE SumLen(_)
SumLen(gs) == IF gs = <<>> THEN 0 ELSE Len(gs[1]) + SumLen(Tail(gs))
Gr(n, es) == FromEdges(0..(n - 1), es)
CertFn(n, q) == [v \in 0..(n - 1) |-> q[v + 1]]
IsQ(n, q) == Len(q) = n /\ \A i \in 1..n : Len(q[i]) = 4 /\ \A k \in 1..4 : q[i][k] \in {0, 1}

LStep(t, s, e) ==
  CASE e.op = "pair" ->
         LET G == Gr(e.n, e.g)
             H == Gr(e.n, e.h)
             eq == IF e.by THEN TRUE ELSE H \in Orbit(G) IN
         [ st |-> s,
           bad |-> Chk("spec:sequence", ~e.by \/ Apply(G, e.seq) = H)
             \cup Chk("raised", e.res = "ok")
             \cup (IF e.res # "ok" THEN {} ELSE
                Chk("equivalent-reported-inequivalent", ~eq \/ (e.tensor.eq /\ e.global.eq))
                \cup Chk("inequivalent-reported-equivalent", eq \/ (~e.tensor.eq /\ ~e.global.eq))
                \cup (IF ~eq \/ ~e.tensor.eq THEN {} ELSE
                       Chk("tensor-certificate", IsQ(e.n, e.tensor.q) /\ Certificate(G, H, CertFn(e.n, e.tensor.q))))
                \cup (IF ~eq \/ ~e.global.eq THEN {} ELSE
                       Chk("global-form-not-local", e.global.diag)
                       \cup Chk("global-certificate", IsQ(e.n, e.global.q) /\ Certificate(G, H, CertFn(e.n, e.global.q))))
                \cup Chk("certificate-without-equivalence", eq \/ (e.tensor.none /\ e.global.none))) ]
    [] e.op = "space" ->
         LET V == 0..(e.n - 1)
             G(i) == {{p[1], p[2]} : p \in ToSet(e.graphs[i])}
             size == 2 ^ ((e.n * (e.n - 1)) \div 2)
             diff(a, b) == Cardinality((a \ b) \cup (b \ a))
             gs == [i \in 1..Len(e.graphs) |-> G(i)]
             flow == {i \in 1..Len(gs) : DOMAIN FlowLayers(Gr(e.n, e.graphs[i]), ToSet(e.I), ToSet(e.O)) = V}
             pairs == {{p[1], p[2]} : p \in ToSet(e.joined)} IN
         [ st |-> s,
           bad |-> Chk("raised", e.res = "ok")
             \cup (IF e.res # "ok" THEN {} ELSE
                Chk("not-every-graph-once", Len(gs) = size /\ Cardinality(ToSet(gs)) = size
                                            /\ \A i \in 1..Len(gs) : \A x \in gs[i] : x \subseteq V /\ Cardinality(x) = 2)
                \cup Chk("joined", \A i, j \in 1..Len(gs) : i < j => (({i, j} \in pairs) <=> diff(gs[i], gs[j]) = 1))
                \cup Chk("joined-to-itself", \A p \in pairs : Cardinality(p) = 2)
                \cup Chk("with-flow", ToSet(e.withflow) = flow /\ Len(e.withflow) = Cardinality(flow))
                \cup Chk("without-flow", ToSet(e.noflow) = (1..Len(gs)) \ flow /\ Len(e.noflow) = Len(gs) - Cardinality(flow))
                \cup Chk("flow-label", ToSet(e.labelled) = flow)
                \cup Chk("edges-of-the-parts", {{p[1], p[2]} : p \in ToSet(e.flowjoined)} = {p \in pairs : p \subseteq flow}
                                               /\ {{p[1], p[2]} : p \in ToSet(e.noflowjoined)} = {p \in pairs : p \cap flow = {}})
                \cup Chk("circuits", e.circuits)) ]
    [] e.op = "cluster" ->
         LET gs == [i \in 1..Len(e.graphs) |-> Gr(e.n, e.graphs[i])]
             orb == [i \in 1..Len(e.groups) |-> Orbit(gs[e.groups[i][1]])] IN
         [ st |-> s,
           bad |-> Chk("raised", e.res = "ok")
             \cup (IF e.res # "ok" THEN {} ELSE
               IF \E i \in 1..Len(e.groups) : Len(e.groups[i]) = 0 THEN {"empty-group"} ELSE
                Chk("lost-or-repeated", SumLen(e.groups) = Len(gs) /\ UNION {ToSet(e.groups[i]) : i \in 1..Len(e.groups)} = 1..Len(gs))
                \cup Chk("inequivalent-together", \A i \in 1..Len(e.groups) : \A x \in ToSet(e.groups[i]) : gs[x] \in orb[i])
                \cup Chk("equivalent-apart", \A i, j \in 1..Len(e.groups) : i # j => gs[e.groups[j][1]] \notin orb[i])
                \cup Chk("graphs-of-the-groups", e.matching)) ]
    [] e.op = "limit" -> [st |-> s, bad |-> Chk("too-large-accepted", e.res = "error")]
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
=============================================================================
