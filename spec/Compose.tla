------------------------------- MODULE Compose ------------------------------
(* Composition of circuits: gluing outputs of one to inputs of the other.     *)
(* pairs is a set of <<output of c1, input of c2>>.  Kept nodes of c1 come    *)
(* first, in order, then the nodes of c2; a glued node is c2's.               *)
EXTENDS Circuit

Size(c) == Cardinality(Nd(c))

ValidPairs(c1, c2, pairs, number) ==
  /\ pairs # {}
  /\ Cardinality(pairs) = number
  /\ \A p \in pairs : p[1] \in ToSet(c1.O) /\ p[2] \in ToSet(c2.I)
  /\ \A p, q \in pairs : (p[1] = q[1] \/ p[2] = q[2]) => p = q

At(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
MapSeq(f, seq) == [i \in 1..Len(seq) |-> f[seq[i]]]

Glue(c1, c2, pairs) ==
  LET gone == {p[1] : p \in pairs}
      taken == {p[2] : p \in pairs}
      keep == Nd(c1) \ gone
      k == Cardinality(keep)
      to2 == TLCEval([v \in Nd(c2) |-> k + v])
      partner(v) == (CHOOSE p \in pairs : p[1] = v)[2]
      to1 == TLCEval([v \in Nd(c1) |-> IF v \in gone THEN to2[partner(v)]
                                ELSE Cardinality({w \in keep : w < v})])
      from1 == TLCEval([x \in 0..(k - 1) |-> CHOOSE u \in keep : to1[u] = x])
      near(v) == {to1[w] : w \in UNION {c1.nb[u] : u \in {u \in Nd(c1) : to1[u] = v}}}
                 \cup (IF v >= k THEN {to2[w] : w \in c2.nb[v - k]} ELSE {})
      V == 0..(k + Size(c2) - 1)
      moved(m, f) == IF m.k = "c" THEN [m EXCEPT !.cond = {f[v] : v \in m.cond},
                                                    !.tru = {{f[v] : v \in s} : s \in m.tru}] ELSE m
      out1(v) == IF v \in gone THEN to2[c2.O[At(c2.I, partner(v))]] ELSE to1[v]
      outs1 == [i \in 1..Len(c1.O) |-> out1(c1.O[i])] IN
  [ nb |-> TLCEval([v \in V |-> near(v) \ {v}]),
    I |-> MapSeq(to1, c1.I) \o MapSeq(to2, SelectSeq(c2.I, LAMBDA v : v \notin taken)),
    O |-> outs1 \o SelectSeq(MapSeq(to2, c2.O), LAMBDA v : v \notin ToSet(outs1)),
    dflt |-> c1.dflt,
    m |-> TLCEval([v \in V |-> IF v >= k THEN moved(c2.m[v - k], to2)
                       ELSE moved(c1.m[from1[v]], to1)]) ]

Side2(c1, c2) == Glue(c1, c2, {})
SeqPairs(c1, c2) == {<<c1.O[i], c2.I[i]>> : i \in 1..Len(c1.O)}
CanSeq(c1, c2) == Len(c1.O) = Len(c2.I)
Seq2(c1, c2) == Glue(c1, c2, SeqPairs(c1, c2))
=============================================================================
