---------------------------- MODULE MC_PauliExp ----------------------------
(* The template implements the rotation, with one sign per operator: every     *)
(* word, basis states and uniform states, angles 2h.                           *)
EXTENDS PauliExp
CONSTANTS N, K, M, Longest
VARIABLES w, h, k
Letters == {"I", "X", "Y", "Z"}
Init == /\ w \in (UNION {[1..n -> Letters] : n \in 1..N}) \cup {[i \in 1..Longest |-> "Y"]}
        /\ h \in (0..K) \X (0..M)
        /\ k \in 0..(2 ^ Len(w))
Next == UNCHANGED <<w, h, k>>
Spec == Init /\ [][Next]_<<w, h, k>>
(* basis states, and one with all amplitudes *)
In == [q \in 1..(2 ^ Len(w)) |-> IF k = 2 ^ Len(w) THEN Power(<<0, 1, 0, 0>>, q * q) ELSE IF q = k + 1 THEN One ELSE Zero]
Implements ==
  LET r == TemplateRun(w, <<2 * h[1], 2 * h[2]>>, In)
      want == Rotated(w, SignOf(w), h, In) IN
  IF \A i \in 1..Len(w) : w[i] = "I" THEN r.zero \/ Parallel(r.psi, In)
  ELSE ~r.zero /\ Parallel(r.psi, want)
(* the rotation is unitary: it keeps norms up to the factor it was scaled with *)
Unitary == VecNorm(Rotated(w, 1, h, In))[1] = 4 * AngleD(h) * AngleD(h) * VecNorm(In)[1]
           /\ VecNorm(Rotated(w, 1, h, In))[2] = 0
=============================================================================
