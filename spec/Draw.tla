-------------------------------- MODULE Draw --------------------------------
(* What a drawing of a circuit shows: the colour and the label of every node   *)
(* are functions of the circuit as it is.                                      *)
EXTENDS Circuit

Styles == {"default", "black_and_white", "blue_inputs"}
Role(c, v) ==
  IF v \in Controlled(c) THEN "controlled"
  ELSE IF v \in ToSet(QuantumOut(c)) THEN "output"
  ELSE IF v \notin Trainable(c) THEN "fixed" ELSE "trainable"
(* inputs and outputs are both light blue                                       *)
Colour(c, v, style) ==
  IF style = "black_and_white" THEN "white"
  ELSE IF style = "blue_inputs" /\ v \in ToSet(c.I) THEN "blue"
  ELSE LET r == Role(c, v) IN IF r = "output" THEN "blue" ELSE r

Options == {"indices", "planes", "arrows", "angles"}
Arrow(p) ==
  CASE p = "X" -> "up" [] p = "Y" -> "right" [] p = "XY" -> "ne" [] p = "Z" -> "dot"
    [] p \in {"XZ", "YZ"} -> "nw" [] p = "XYZ" -> "nw-ne" [] p = "" -> "none"
(* a label: a kind and a number                                                 *)
Label(c, v, option) ==
  CASE option = "indices" -> <<"index", v>>
    [] v \in Controlled(c) -> <<"ctrl", 0>>
    [] option = "planes" -> <<PlaneOf(c, v), 0>>
    [] option = "arrows" -> <<Arrow(PlaneOf(c, v)), 0>>
    [] option = "angles" -> IF c.m[v].k = "none" THEN <<"none", 0>>
                            ELSE IF c.m[v].a = NoAngle THEN <<"theta", 0>> ELSE <<"angle", c.m[v].a>>

(* a wire follows the flow from an input to an output                           *)
RECURSIVE WireFrom(_, _, _)
WireFrom(c, f, v) == IF v \in ToSet(c.O) THEN <<v>> ELSE <<v>> \o WireFrom(c, f, f[v])
=============================================================================
