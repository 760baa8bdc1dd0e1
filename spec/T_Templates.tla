---------------------------- MODULE T_Templates ----------------------------
(* Recorded templates: the circuit of a template with its sizes and options,   *)
(* or a rejected size.                                                         *)
EXTENDS T_Circuit, Templates

Valid(e) ==
  CASE e.name = "linear" -> ValidLinear(e.a)
    [] e.name = "wires" -> ValidWires(e.ns)
    [] e.name = "grid" -> ValidGrid(e.a, e.b)
    [] e.name = "muta" -> ValidMuta(e.a, e.b)
    [] e.name = "spt" -> ValidSPT(e.a, e.b)

Circ(e) ==
  CASE e.name = "linear" -> Linear(e.a, M(e.dflt), Given(e.given))
    [] e.name = "wires" -> Wires(e.ns, M(e.dflt), Given(e.given))
    [] e.name = "grid" -> Grid(e.a, e.b, e.flag, M(e.dflt), Given(e.given))
    [] e.name = "muta" -> Muta(e.a, e.b, e.flag)
    [] e.name = "spt" -> SPTurb(e.a, e.b, e.flag)

QInit(t) == 0
QStep(t, s, e) ==
  [st |-> s,
   bad |->
     IF ~e.sized \/ ~Valid(e) THEN Chk("accepted-invalid-" \o e.name, e.res = "error")
     ELSE IF e.res # "ok" THEN {"rejected-valid-" \o e.name}
     ELSE LET c == TLCEval(Circ(e))
              o == e.obs[1]
              odd == e.name = "muta" /\ e.a = 1 /\ e.b = 1   \* a single column restricts its trainable nodes
              g == GraphClauses(c, o)
              a == AttrClauses(c, o) \ (IF odd THEN {"trainable"} ELSE {}) IN
          {e.name \o "-" \o k : k \in g \cup a}
          \cup Chk(e.name \o "-trainable-number", odd \/ Len(o.train) = Cardinality(Trainable(c)))]
=============================================================================
