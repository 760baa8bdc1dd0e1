------------------------------ MODULE PauliExp -----------------------------
(* Rotations generated by a Pauli operator, and the pattern that implements    *)
(* them: three-node wires and a two-node gadget attached to them.              *)
EXTENDS Pattern

(* Pauli words: sequences of letters, one per qubit *)
ApplyY(psi, n, j) == LET v == ApplyX(ApplyZ(psi, n, j), n, j) IN TLCEval([q \in 1..Len(v) |-> Mul(Im, v[q])])
ApplyLetter(l, psi, n, j) ==
  CASE l = "I" -> psi [] l = "X" -> ApplyX(psi, n, j) [] l = "Z" -> ApplyZ(psi, n, j) [] l = "Y" -> ApplyY(psi, n, j)
RECURSIVE ApplyWord(_, _, _)
ApplyWord(w, psi, j) == IF j > Len(w) THEN psi ELSE ApplyWord(w, ApplyLetter(w[j], psi, Len(w), j), j + 1)

(* exp(-i sg h P) psi, up to a factor, with h half the angle *)
Rotated(w, sg, h, psi) ==
  LET p == ApplyWord(w, psi, 1)
      c == Cos2(h)
      s == Mul(Int2R(-sg), Mul(Im, Sin2(h))) IN
  TLCEval([q \in 1..Len(psi) |-> Add(Mul(c, psi[q]), Mul(s, p[q]))])

(* --- the template ---------------------------------------------------------- *)
Ys(w) == Cardinality({q \in 1..Len(w) : w[q] = "Y"})
Gadget(w) == 3 * Len(w)
TemplateEdges(w) ==
  LET n == Len(w) IN
  UNION {{<<3 * q, 3 * q + 1>>, <<3 * q + 1, 3 * q + 2>>} : q \in 0..(n - 1)}
  \cup {<<3 * n, 3 * n + 1>>}
  \cup {<<3 * q + 1, 3 * n>> : q \in {q \in 0..(n - 1) : w[q + 1] \in {"X", "Y"}}}
  \cup {<<3 * q, 3 * n>> : q \in {q \in 0..(n - 1) : w[q + 1] \in {"Z", "Y"}}}
TemplateI(w) == [q \in 1..Len(w) |-> 3 * (q - 1)]
TemplateO(w) == [q \in 1..Len(w) |-> 3 * (q - 1) + 2]
None2 == <<0, 0>>
TemplateSteps(w, t) ==
  LET n == Len(w)
      axis(v) == [v |-> v, bra |-> Bra("X", None2, None2, 0)] IN
  [q \in 1..n |-> axis(3 * (q - 1))]
  \o <<[v |-> 3 * n + 1, bra |-> Bra("XY", t, None2, 0)],
       [v |-> 3 * n, bra |-> Bra(IF Ys(w) % 2 = 1 THEN "Y" ELSE "X", None2, None2, 0)]>>
  \o [q \in 1..n |-> axis(3 * (q - 1) + 1)]
TemplateRun(w, t, psi) ==
  RunPattern(3 * Len(w) + 2, TemplateEdges(w), TemplateI(w), psi, TemplateSteps(w, t), TemplateO(w))

SignOf(w) == IF Ys(w) % 4 \in {1, 2} THEN 1 ELSE -1
=============================================================================
