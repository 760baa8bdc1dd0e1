------------------------------- MODULE MC_Draw -----------------------------
(* The colours and labels along every history of edits.                        *)
EXTENDS MC_Circuit, Draw
Every(P(_)) == \A i \in 1..Len(cs) : P(cs[i])
ColoursTellRoles ==
  Every(LAMBDA c : \A v \in Nd(c) :
    LET d == Colour(c, v, "default") IN
    /\ d = "controlled" <=> v \in Controlled(c)
    /\ d = "blue" <=> v \in ToSet(QuantumOut(c))
    /\ d = "trainable" <=> v \in Trainable(c) \ Controlled(c)
    /\ d = "fixed" <=> v \notin Controlled(c) \cup Trainable(c) \cup ToSet(QuantumOut(c)))
StylesAgree ==
  Every(LAMBDA c : \A v \in Nd(c) :
    /\ Colour(c, v, "black_and_white") = "white"
    /\ v \notin ToSet(c.I) => Colour(c, v, "blue_inputs") = Colour(c, v, "default")
    /\ v \in ToSet(c.I) => Colour(c, v, "blue_inputs") = "blue")
(* the label options tell the same story                                        *)
LabelsAgree ==
  Every(LAMBDA c : \A v \in Nd(c) :
    LET lab(o) == Label(c, v, o)[1] IN
    /\ lab("planes") = "ctrl" <=> v \in Controlled(c)
    /\ lab("arrows") = "ctrl" <=> lab("planes") = "ctrl"
    /\ lab("angles") = "ctrl" <=> lab("planes") = "ctrl"
    /\ lab("angles") = "theta" => v \in Trainable(c)
    /\ lab("angles") = "none" <=> lab("planes") = ""
    /\ lab("arrows") = "none" <=> lab("planes") = "")
(* editing one circuit does not change the drawing of the other                 *)
OnlyTheEdited ==
  [][\A i \in 1..Len(cs) : cs'[i] = cs[i] =>
       \A v \in Nd(cs[i]), s \in Styles : Colour(cs'[i], v, s) = Colour(cs[i], v, s)]_vars
=============================================================================
