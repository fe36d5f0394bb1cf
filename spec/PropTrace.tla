----------------------------- MODULE PropTrace -----------------------------
(***************************************************************************)
(* Executions recorded from the real code, judged by the properties of     *)
(* Props.tla.  Every durable state inside a call (ev.mid) is a step of its *)
(* own, so a predicate over the disks is evaluated at every crash point.   *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

TraceFile == IOEnv.OPX_TRACES
Traces == JsonDeserialize(TraceFile)

VARIABLES tid, l, s, o
vars == <<tid, l, s, o>>

T == Traces[tid]
Cfg(t) == [n |-> Len(t.pids), pids |-> t.pids, rq |-> t.rq, wq |-> t.wq,
           prio |-> t.prio, snap |-> t.snap, ett |-> t.ett, uc |-> t.uc, batch |-> t.batch]
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ s = 0
        /\ o = ObsInit(Cfg(Traces[tid]))

Quiet == {"H1", "X", "XA", "C1", "B", "F"}

Pend(e) == IF e.k \in {"A", "G"} THEN e.v ELSE 0

Next ==
  /\ l <= Len(T.ev)
  /\ UNCHANGED tid
  /\ LET e == T.ev[l] IN
     IF e.k \in Quiet
     THEN /\ l' = l + 1 /\ s' = 0
          /\ o' = CASE e.k = "H1" -> ObsSkip(o)
                    [] e.k = "B"  -> ObsDown(o, e.i)
                    [] OTHER      -> ObsFault(o)
     ELSE IF e.k = "E"
     THEN /\ l' = l + 1 /\ s' = 0
          /\ o' = ObsExpect(o, e.x, e.s)
     ELSE IF s < Len(e.mid)
     THEN /\ s' = s + 1 /\ UNCHANGED l
          /\ o' = [ObsDisk(o, e.i, e.mid[s + 1]) EXCEPT !.pend = Pend(e)]
     ELSE /\ l' = l + 1 /\ s' = 0
          /\ o' = [ObsEnd(o, e @@ [before |-> EmptyDisk, was |-> NoApi]) EXCEPT !.pend = 0]

Spec == Init /\ [][Next]_vars

iC01 == C01(o)
iC02 == C02(o)
iC03 == C03(o)
iC04 == C04(o)
iC05 == C05(o)
iC06 == C06(o)
iC07 == C07(o)
iC08 == C08(o)
iC09 == C09(o)
iC10 == C10(o)
iC11 == C11(o)
iC12 == C12(o)
iC13 == C13(o)
iC14 == C14(o)
iC15 == C15(o)
iC16 == C16(o)
iC18 == C18(o)
iC19 == C19(o)
iC20 == C20(o)
iC21 == C21(o)
iC22 == C22(o)

Brief == [tid |-> tid, l |-> l, s |-> s, k |-> o.ev.k, i |-> o.ev.i]
=============================================================================
