-------------------------------- MODULE T_GF2 ------------------------------
(* Recorded answers of the solver.                                             *)
EXTENDS GF2, Replay
SInit(t) == 0
SStep(t, s, e) ==
  LET sys == System(e.A, e.b)
      can == Solvable(sys)
      fits == Len(e.x) = e.cols /\ \A j \in 1..Len(e.x) : e.x[j] \in {0, 1} IN
  [st |-> s,
   bad |-> Chk("arguments-modified", e.same)
      \cup IF can THEN Chk("solve-failed", e.ok) \cup
                       (IF ~e.ok THEN {} ELSE Chk("length-or-entries", fits) \cup (IF fits THEN Chk("not-a-solution", Satisfies(sys, e.x)) ELSE {}))
           ELSE Chk("no-vector", e.ok) \cup Chk("claims-a-solution", ~(e.ok /\ fits /\ Satisfies(sys, e.x)))]
=============================================================================
