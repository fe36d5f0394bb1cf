----------------------------- MODULE OmniTrace -----------------------------
(***************************************************************************)
(* Conformance: executions recorded from the real code, replayed against   *)
(* the transition operators of OmniPaxos.tla.  Every call of the library   *)
(* must leave exactly the durable state, the intermediate durable states,  *)
(* the API view, the result and the outgoing messages that the             *)
(* specification prescribes.  dv names the first disagreement.             *)
(***************************************************************************)
EXTENDS OmniPaxos, Json, IOUtils

Traces == JsonDeserialize(IOEnv.OPX_TRACES)

VARIABLES tid, l, nd, disk, up, inc, armed, dv
vars == <<tid, l, nd, disk, up, inc, armed, dv>>

T == Traces[tid]
Cfg(t) == [n |-> Len(t.pids), pids |-> t.pids, rq |-> t.rq, wq |-> t.wq, batch |-> t.batch,
           prio |-> t.prio, ett |-> t.ett, rtt |-> t.rtt, ftt |-> t.ftt, snap |-> t.snap, uc |-> t.uc]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ LET c == Cfg(Traces[tid]) IN
           /\ nd = [i \in 1..c.n |-> Start(c, i, EmptyDisk, TRUE)]
           /\ disk = [i \in 1..c.n |-> EmptyDisk]
           /\ up = [i \in 1..c.n |-> FALSE]
           /\ inc = [i \in 1..c.n |-> 0]
           /\ armed = [i \in 1..c.n |-> FALSE]
        /\ dv = "ok"

Quiet == {"H1", "X", "XA", "C1", "E"}

\* writes that change nothing are not steps
RECURSIVE Dedup(_, _)
Dedup(d, s) == IF s = <<>> THEN <<>>
               ELSE IF Head(s) = d THEN Dedup(d, Tail(s))
               ELSE <<Head(s)>> \o Dedup(Head(s), Tail(s))

\* <<server after the call, result>>
Call(c, e, x) ==
  CASE e.k = "T" -> <<Tick(c, x), [r |-> "-"]>>
    [] e.k = "D" -> <<Handle(c, x, e.in), [r |-> "-"]>>
    [] e.k = "R" -> <<ReconnectedCall(c, x, c.pids[e.j]), [r |-> "-"]>>
    [] e.k = "A" -> AppendCall(c, x, e.v)
    [] e.k = "G" -> ReconfigureCall(c, x, e.v)
    [] e.k = "M" -> TrimCall(c, x, e.x)
    [] e.k = "S" -> SnapshotCall(c, x, e.x, e.l)
    [] e.k = "P" -> <<SetPriorityCall(c, x, e.p), [r |-> "-"]>>
    [] e.k = "L" -> <<BecomeLeaderCall(c, x), [r |-> "-"]>>
    [] e.k \in {"Q", "Q1"} ->
         <<Begin(x), IF e.f < e.t THEN ExpRead(x.d, e.f, e.t) ELSE e.ret>>
    [] e.k = "QD" ->
         <<Begin(x), IF e.f < x.d.dec THEN ExpRead(x.d, e.f, x.d.dec) ELSE [r |-> "none"]>>
    [] OTHER -> <<Begin(x), [r |-> "-"]>>

\* an injected write error that the library tolerates (forwarded compaction)
Tolerated(e, x) == armed[e.i] /\ e.k = "D" /\ e.in.t \in {"CTrim", "CSnap"} /\ e.d = x.d

\* heartbeats are not part of runs without leader election
Sent(y) == IF T.ble THEN Outgoing(y) ELSE y.out

Judge(e, x, y, ret) ==
  IF e.pan THEN "panic"
  ELSE IF e.up
  THEN IF e.d # y.d THEN "disk"
       ELSE IF Dedup(x.d, e.mid) # y.w THEN "writes"
       ELSE IF e.a # Api(y) THEN "api"
       ELSE IF ~(IF e.k \in {"Q", "Q1", "QD"} THEN ReadOK(e.ret, ret) \/ e.ret = ret ELSE e.ret = ret) THEN "result"
       ELSE IF (T.eager \/ e.k = "K") /\ e.out # Sent(y) THEN "messages"
       ELSE "ok"
  ELSE IF ~Prefix(Dedup(x.d, e.mid), y.w) THEN "writes"
       ELSE "ok"

Next ==
  /\ l <= Len(T.ev) /\ dv = "ok"
  /\ UNCHANGED tid
  /\ l' = l + 1
  /\ LET e == T.ev[l]
         c == Cfg(T)
     IN
     CASE e.k \in Quiet -> UNCHANGED <<nd, disk, up, inc, armed, dv>>
       [] e.k = "F" -> armed' = [armed EXCEPT ![e.i] = TRUE] /\ UNCHANGED <<nd, disk, up, inc, dv>>
       [] e.k = "B" -> /\ up' = [up EXCEPT ![e.i] = FALSE]
                       /\ armed' = [armed EXCEPT ![e.i] = FALSE]
                       /\ UNCHANGED <<nd, disk, inc, dv>>
       [] OTHER ->
            LET i == e.i
                x == IF e.k = "U" THEN Start(c, i, disk[i], inc[i] = 0) ELSE nd[i]
                q == IF e.k = "U" THEN <<x, [r |-> "-"]>>
                     ELSE IF Tolerated(e, x) THEN <<Begin(x), [r |-> "-"]>>
                     ELSE Call(c, e, x)
                y == q[1]
            IN /\ dv' = Judge(e, x, y, q[2])
               /\ nd' = [nd EXCEPT ![i] = IF e.up /\ (T.eager \/ e.k = "K") THEN Taken(c, y) ELSE y]
               /\ disk' = [disk EXCEPT ![i] = e.d]
               /\ up' = [up EXCEPT ![i] = e.up]
               /\ inc' = [inc EXCEPT ![i] = IF e.k = "U" THEN @ + 1 ELSE @]
               /\ armed' = [armed EXCEPT ![i] = @ /\ e.up /\ e.k # "U"]

Spec == Init /\ [][Next]_vars
Conforms == dv = "ok"
Brief == [tid |-> tid, l |-> l, dv |-> dv]
=============================================================================
