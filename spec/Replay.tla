------------------------------- MODULE Replay -------------------------------
(* Trace validation driver.  A trace file holds one recorded history of the   *)
(* real code per line: a record with a sequence `ev` of events.  A trace      *)
(* specification EXTENDS this module and gives                                *)
(*    InitSt(t)       the abstract state before the first event of trace t    *)
(*    Step(t, s, e)   [st |-> next abstract state, bad |-> {broken clauses}]  *)
(* Every trace is replayed event by event until it ends or a clause breaks,   *)
(* and each trace gets a verdict line: the set of the broken clauses.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS InitSt(_), Step(_, _, _)

VARIABLES tid, pos, st, bad
rvars == <<tid, pos, st, bad>>

Traces == ndJsonDeserialize(IOEnv.TRACE)

ReplayInit ==
  /\ tid \in 1..Len(Traces)
  /\ pos = 1
  /\ st = InitSt(Traces[tid])
  /\ bad = {}

ReplayStep ==
  LET t == Traces[tid] IN
  /\ bad = {}
  /\ pos <= Len(t.ev)
  /\ LET r == Step(t, st, t.ev[pos]) IN
       /\ st' = r.st
       /\ bad' = r.bad
  /\ pos' = pos + 1
  /\ UNCHANGED tid
  /\ IF bad' # {} \/ pos' > Len(t.ev)
       THEN PrintT("@@V " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToJson(bad'))
       ELSE TRUE

ReplaySpec == ReplayInit /\ [][ReplayStep]_rvars

(* helpers for clauses *)
Chk(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
