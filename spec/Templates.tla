------------------------------ MODULE Templates ----------------------------
(* The template circuits.  They are built from wires, extra edges and the     *)
(* composition of circuits.                                                    *)
EXTENDS Compose

XYm == [k |-> "m", p |-> "XY", a |-> NoAngle, tp |-> "", ta |-> NoAngle, cond |-> {}, tru |-> {}]
Axis(p) == [XYm EXCEPT !.p = p, !.a = 0]

RECURSIVE SumTo(_, _)
SumTo(ns, i) == IF i = 0 THEN 0 ELSE ns[i] + SumTo(ns, i - 1)   \* ns[1] + .. + ns[i]

Build(n, es, I, O, dflt, given) ==
  NewCircuit([v \in 0..(n - 1) |-> {w \in 0..(n - 1) : w # v /\ {v, w} \in es}], I, O, dflt, given)

WireEdges(ns) == UNION {{{SumTo(ns, i - 1) + j, SumTo(ns, i - 1) + j + 1} : j \in 0..(ns[i] - 2)} : i \in 1..Len(ns)}
Starts(ns) == [i \in 1..Len(ns) |-> SumTo(ns, i - 1)]
Ends(ns) == [i \in 1..Len(ns) |-> SumTo(ns, i) - 1]
WiresWith(ns, more, dflt, given) == Build(SumTo(ns, Len(ns)), WireEdges(ns) \cup more, Starts(ns), Ends(ns), dflt, given)
Wires(ns, dflt, given) == WiresWith(ns, {}, dflt, given)

Linear(n, dflt, given) == Wires(<<n>>, dflt, given)

Same(n, k) == [i \in 1..n |-> k]
GridEdges(n, m, periodic) ==
  {{i * m + j, (i + 1) * m + j} : i \in 0..(n - 2), j \in 0..(m - 1)}
  \cup (IF periodic /\ n > 1 THEN {{j, (n - 1) * m + j} : j \in 0..(m - 1)} ELSE {})
Grid(n, m, periodic, dflt, given) == WiresWith(Same(n, m), GridEdges(n, m, periodic), dflt, given)

(* triangles: the second node of one wire with the first and third of the others *)
Triangles(W, w) ==
  UNION {{{5 * w + 1, 5 * c}, {5 * w + 1, 5 * c + 2}} : c \in (0..(W - 1)) \ {w}}
MutaColumn(W, w) == WiresWith(Same(W, 5), Triangles(W, w), XYm, <<>>)
RECURSIVE Fold2(_, _, _)
Fold2(c, cs, i) == IF i > Len(cs) THEN c ELSE Fold2(TLCEval(Seq2(c, cs[i])), cs, i + 1)
FoldSeq2(cs) == Fold2(cs[1], cs, 2)
MutaLayer(W, one) == FoldSeq2([w \in 1..(IF one THEN 1 ELSE W) |-> MutaColumn(W, w - 1)])
Muta(W, L, one) == LET x == MutaLayer(W, one) IN FoldSeq2([l \in 1..L |-> x])

(* the symmetry protected ansatz: a layer of single wires, then blocks between  *)
(* each wire and the second next, all of the first kind and then of the second  *)
Chain2(n) == Wires(Same(n, 3), Axis("X"), [v \in {3 * (i - 1) + 1 : i \in 1..n} |-> XYm])
SymBlock(ys) ==
  LET c == WiresWith(<<5, 2, 5>>, {{2, 6}, {9, 6}}, Axis("X"),
                     [v \in {5} \cup ys |-> IF v = 5 THEN XYm ELSE Axis("Y")]) IN
  \* the middle wire is neither input nor output
  NewCircuit(c.nb, <<0, 7>>, <<4, 11>>, Axis("X"), [v \in {5} \cup ys |-> IF v = 5 THEN XYm ELSE Axis("Y")])
Block(m) == SymBlock(IF m = 0 THEN {} ELSE {1, 3, 8, 10})

RECURSIVE AddBlocks(_, _, _, _, _)
AddBlocks(c, n, blocks, m, i) ==
  IF i > blocks THEN c
  ELSE AddBlocks(TLCEval(Glue(c, Block(m), {<<c.O[i], 0>>, <<c.O[((i + 1) % n) + 1], 7>>})), n, blocks, m, i + 1)

RECURSIVE AddLayers(_, _, _, _, _)
AddLayers(c, n, blocks, l, L) ==
  IF l > L THEN c
  ELSE LET a == IF l = 1 THEN c ELSE Seq2(c, Chain2(n)) IN
       AddLayers(TLCEval(AddBlocks(AddBlocks(a, n, blocks, 0, 1), n, blocks, 1, 1)), n, blocks, l + 1, L)
SPTurb(n, L, periodic) == AddLayers(Chain2(n), n, IF periodic THEN n ELSE n - 2, 1, L)

(* which sizes there are *)
ValidLinear(n) == n >= 2
ValidWires(ns) == Len(ns) >= 1 /\ \A i \in 1..Len(ns) : ns[i] >= 2
ValidGrid(n, m) == n >= 1 /\ m >= 1 /\ n * m >= 2
ValidMuta(W, L) == W >= 1 /\ L >= 1
ValidSPT(n, L) == n >= 4 /\ L >= 0
=============================================================================
