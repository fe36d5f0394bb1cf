---------------------------- MODULE StorageTrace ---------------------------
(* Recorded programs of storage operations on a real back-end, with all    *)
(* that could be read after each step, judged by the storage contract.     *)
EXTENDS Storage, Json, IOUtils

Traces == JsonDeserialize(IOEnv.OPX_TRACES)
VARIABLES tid, l, s, ok
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Empty /\ ok = TRUE
Next ==
  /\ ok /\ l <= Len(Traces[tid])
  /\ LET e == Traces[tid][l]
         st == [t |-> e.t, ops |-> e.ops]
         s1 == After(s, st)
     IN /\ Assert(Legal(s, st), <<"illegal program", tid, l>>)
        /\ s' = s1
        /\ ok' = (e.ret = Result(st) /\ e.obs = Obs(s1, e.lo, e.hi))
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s, ok>>
Contract == ok
Brief == [tid |-> tid, l |-> l]
=============================================================================
