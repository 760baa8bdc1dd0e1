------------------------------- MODULE MC_GF2 ------------------------------
(* Elimination decides solvability: all systems up to a size, against all      *)
(* candidate solutions.                                                        *)
EXTENDS GF2
CONSTANTS R, C
VARIABLES A, b
Init == \E r \in 1..R, c \in 1..C : A \in [1..r -> [1..c -> {0, 1}]] /\ b \in [1..r -> {0, 1}]
Next == UNCHANGED <<A, b>>
Spec == Init /\ [][Next]_<<A, b>>
Decides == Solvable(System(A, b)) <=> \E x \in [1..Len(A[1]) -> {0, 1}] : Satisfies(System(A, b), x)
=============================================================================
