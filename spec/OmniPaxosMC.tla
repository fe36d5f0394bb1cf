---------------------------- MODULE OmniPaxosMC ----------------------------
(***************************************************************************)
(* The cluster: servers of OmniPaxos.tla, FIFO links with loss, crashes at *)
(* every storage write, restarts, and clients.  Each transition is one     *)
(* call of the library; the observer o of Props.tla watches, so the        *)
(* invariants below are exactly the predicates that recorded executions of *)
(* the real code are judged by.                                            *)
(*                                                                         *)
(* Budgets bound each kind of environment step.                            *)
(*                                                                         *)
(* With Emit = TRUE every transition is printed together with a shortest   *)
(* path to it (h, in the notation of the harness) and what the             *)
(* specification expects the last call to do (xp): the exhaustive test     *)
(* suite of the bounded model, which the harness replays on the real code. *)
(***************************************************************************)
EXTENDS OmniPaxos, Json

CONSTANTS
  NServers, Pids, RQ, WQ, BatchSize, Prios, UseSnap,
  Ble,        \* TRUE: heartbeats and ticks; FALSE: leaders come from try_become_leader only
  Ett, Rtt, Ftt,
  Eager,      \* TRUE: outgoing messages are taken after every call; FALSE: by Take steps
  Emit,
  MaxLead, MaxApp, MaxRcf, MaxCompact, MaxCrash, MaxMidCrash, MaxLose, MaxRecon,
  MaxTick, MaxPrio, MaxRead,
  Compressed, \* entries are sent compressed (UniCache)
  LeadBy,     \* the servers at which try_become_leader is called
  AppBy       \* the servers at which clients append, reconfigure and compact

Cl == [n |-> NServers, pids |-> Pids, rq |-> RQ, wq |-> WQ, batch |-> BatchSize, prio |-> Prios,
       ett |-> Ett, rtt |-> Rtt, ftt |-> Ftt, snap |-> UseSnap, uc |-> Compressed]
Nodes == 1..NServers

VARIABLES nd, up, net, b, o, h, xp
vars == <<nd, up, net, b, o>>

B0 == [lead |-> 0, app |-> 0, rcf |-> 0, cmp |-> 0, crash |-> 0, mid |-> 0, lose |-> 0,
       recon |-> 0, tick |-> 0, prio |-> 0, read |-> 0]

\* the step in the notation of the harness, whose servers are numbered from 0
Op1(k, i) == k \o " " \o ToString(i - 1)
Op2(k, i, j) == Op1(k, i) \o " " \o ToString(j - 1)
Idx(x) == IF x = -1 THEN "-" ELSE ToString(x)
Did(ops, x) == IF Emit THEN h' = h \o ops /\ xp' = x ELSE UNCHANGED <<h, xp>>
NoExp == [i |-> 0]

StripOut(msgs) == IF Ble THEN msgs ELSE SelectSeq(msgs, LAMBDA m : m.t \notin {"HbReq", "HbRep"})

\* messages of one server put on its links
RECURSIVE Enqueue(_, _, _)
Enqueue(nt, i, msgs) ==
  IF msgs = <<>> THEN nt
  ELSE LET j == Ix(Cl, Head(msgs).to) IN
       Enqueue(IF j = i THEN nt ELSE [nt EXCEPT ![i][j] = Append(@, Head(msgs))], i, Tail(msgs))

Ev(k, i, y, ret, arg) ==
  arg @@ [k |-> k, i |-> i, ret |-> ret, up |-> TRUE, pan |-> FALSE, d |-> y.d, a |-> Api(y),
          out |-> IF Eager \/ k = "K" THEN StripOut(Outgoing(y)) ELSE <<>>, before |-> EmptyDisk, was |-> NoApi]
Expect(i, y, ret, out) == [i |-> i, up |-> TRUE, d |-> y.d, a |-> Api(y), ret |-> ret, out |-> out]

RECURSIVE ObsWrites(_, _, _)
ObsWrites(ob, i, w) == IF w = <<>> THEN ob ELSE ObsWrites(ObsDisk(ob, i, Head(w)), i, Tail(w))

\* server i completes a call; nt is the network without the consumed message, op the step
Done(k, i, y, ret, arg, nt, op) ==
  LET take == Eager \/ k = "K"
      out == IF take THEN StripOut(Outgoing(y)) ELSE <<>>
  IN
  /\ nd' = [nd EXCEPT ![i] = IF take THEN [Taken(Cl, y) EXCEPT !.w = <<>>]
                             ELSE [y EXCEPT !.w = <<>>, !.bout = StripOut(@)]]
  /\ net' = Enqueue(nt, i, out)
  /\ o' = ObsEnd(ObsWrites(o, i, y.w), Ev(k, i, y, ret, arg))
  /\ Did(<<op>>, Expect(i, y, ret, out))
  /\ UNCHANGED up

\* server i crashes inside a call, after k of its writes
Dies(i, y, nt, op) ==
  /\ b.mid < MaxMidCrash
  /\ \E k \in 0..(Len(y.w) - 1) :
       LET d == IF k = 0 THEN nd[i].d ELSE y.w[k] IN
       /\ nd' = [nd EXCEPT ![i].d = d]
       /\ o' = ObsDown(ObsWrites(o, i, SubSeq(y.w, 1, k)), i)
       /\ Did(<<Op1("F", i) \o " " \o ToString(k) \o " 2", op>>, [i |-> i, up |-> FALSE, d |-> d])
  /\ net' = nt
  /\ up' = [up EXCEPT ![i] = FALSE]
  /\ b' = [b EXCEPT !.mid = @ + 1]

NoRet == [r |-> "-"]
NoArg == [j |-> 0]
Sum(f) == b[f]

Init ==
  /\ nd = [i \in Nodes |-> [IF Eager THEN Taken(Cl, Start(Cl, i, EmptyDisk, TRUE))
                            ELSE [Start(Cl, i, EmptyDisk, TRUE) EXCEPT !.bout = StripOut(@)] EXCEPT !.w = <<>>]]
  /\ up = [i \in Nodes |-> TRUE]
  /\ net = IF Ble /\ Eager
           THEN [i \in Nodes |-> [j \in Nodes |->
                   IF i = j THEN <<>>
                   ELSE <<[t |-> "HbReq", r |-> 1, from |-> Pids[i], to |-> Pids[j]]>>]]
           ELSE [i \in Nodes |-> [j \in Nodes |-> <<>>]]
  /\ b = B0 /\ h = <<>> /\ xp = NoExp
  /\ o = LET z == ObsInit([n |-> NServers, pids |-> Pids, rq |-> RQ, wq |-> WQ, prio |-> Prios, snap |-> UseSnap, ett |-> Ett, uc |-> Compressed, batch |-> BatchSize])
         IN [z EXCEPT !.up = [i \in Nodes |-> TRUE], !.inc = [i \in Nodes |-> 1],
                      !.api = [i \in Nodes |-> Api(Start(Cl, i, EmptyDisk, TRUE))]]

Deliver(i, j) ==
  /\ net[i][j] # <<>>
  /\ LET m == Head(net[i][j])
         nt == [net EXCEPT ![i][j] = Tail(@)]
     IN IF up[j]
        THEN LET y == Handle(Cl, nd[j], m) IN
             \/ Done("D", j, y, NoRet, [j |-> i, in |-> m], nt, Op2("D", i, j)) /\ UNCHANGED b
             \/ Dies(j, y, nt, Op2("D", i, j))
        ELSE /\ net' = nt /\ o' = ObsFault(o) /\ UNCHANGED <<nd, up, b>>
             /\ Did(<<Op2("D", i, j)>>, NoExp)

\* everything in flight on a link is lost (the session breaks)
Lose(i, j) ==
  /\ net[i][j] # <<>> /\ b.lose < MaxLose
  /\ net' = [net EXCEPT ![i][j] = <<>>]
  /\ b' = [b EXCEPT !.lose = @ + 1]
  /\ o' = ObsFault(o)
  /\ Did([k \in 1..Len(net[i][j]) |-> Op2("X", i, j)], NoExp)
  /\ UNCHANGED <<nd, up>>
\* only the oldest one
DropOne(i, j) ==
  /\ Len(net[i][j]) > 1 /\ b.lose < MaxLose
  /\ net' = [net EXCEPT ![i][j] = Tail(@)]
  /\ b' = [b EXCEPT !.lose = @ + 1]
  /\ o' = ObsFault(o)
  /\ Did(<<Op2("X", i, j)>>, NoExp)
  /\ UNCHANGED <<nd, up>>

Crash(i) ==
  /\ up[i] /\ b.crash < MaxCrash
  /\ up' = [up EXCEPT ![i] = FALSE]
  /\ b' = [b EXCEPT !.crash = @ + 1]
  /\ o' = ObsDown(o, i)
  /\ Did(<<Op1("B", i) \o " 0">>, NoExp)
  /\ UNCHANGED <<nd, net>>
Restart(i) ==
  /\ ~up[i]
  /\ LET y == Start(Cl, i, nd[i].d, FALSE)
         out == IF Eager THEN StripOut(Outgoing(y)) ELSE <<>>
     IN
     /\ nd' = [nd EXCEPT ![i] = IF Eager THEN [Taken(Cl, y) EXCEPT !.w = <<>>]
                                ELSE [y EXCEPT !.w = <<>>, !.bout = StripOut(@)]]
     /\ net' = Enqueue(net, i, out)
     /\ o' = ObsEnd(o, Ev("U", i, y, NoRet, NoArg))
     /\ Did(<<Op1("U", i)>>, Expect(i, y, NoRet, out))
  /\ up' = [up EXCEPT ![i] = TRUE]
  /\ UNCHANGED b

Lead(i) ==
  /\ up[i] /\ i \in LeadBy /\ b.lead < MaxLead
  /\ LET y == BecomeLeaderCall(Cl, nd[i])
         b1 == [b EXCEPT !.lead = @ + 1]
     IN \/ Done("L", i, y, NoRet, NoArg, net, Op1("L", i)) /\ b' = b1
        \/ Dies(i, y, net, Op1("L", i))

App(i) ==
  /\ up[i] /\ i \in AppBy /\ b.app < MaxApp
  /\ LET v == b.app + 1
         q == AppendCall(Cl, nd[i], v)
     IN /\ Done("A", i, q[1], q[2], [v |-> v], net, Op1("A", i))
        /\ b' = [b EXCEPT !.app = @ + 1]
Rcf(i) ==
  /\ up[i] /\ i \in AppBy /\ b.rcf < MaxRcf
  /\ LET v == SSBASE + b.rcf
         q == ReconfigureCall(Cl, nd[i], v)
     IN /\ Done("G", i, q[1], q[2], [v |-> v], net, Op1("G", i))
        /\ b' = [b EXCEPT !.rcf = @ + 1]
Compact(i) ==
  /\ up[i] /\ i \in AppBy /\ b.cmp < MaxCompact
  /\ nd[i].d.dec > 0
  /\ \E x \in {-1} \union {nd[i].d.dec, nd[i].d.dec - 1} :
       LET q == IF UseSnap THEN SnapshotCall(Cl, nd[i], x, FALSE) ELSE TrimCall(Cl, nd[i], x)
       IN Done(IF UseSnap THEN "S" ELSE "M", i, q[1], q[2], [x |-> x, l |-> FALSE], net,
               IF UseSnap THEN Op1("S", i) \o " " \o Idx(x) \o " 0" ELSE Op1("M", i) \o " " \o Idx(x))
  /\ b' = [b EXCEPT !.cmp = @ + 1]
Recon(i, j) ==
  /\ up[i] /\ i # j /\ b.recon < MaxRecon
  /\ Done("R", i, ReconnectedCall(Cl, nd[i], Pids[j]), NoRet, [j |-> j], net, Op2("R", i, j))
  /\ b' = [b EXCEPT !.recon = @ + 1]
TickT(i) ==
  /\ up[i] /\ b.tick < MaxTick
  /\ LET y == Tick(Cl, nd[i])
         b1 == [b EXCEPT !.tick = @ + 1]
     IN \/ Done("T", i, y, NoRet, NoArg, net, Op1("T", i)) /\ b' = b1
        \/ Dies(i, y, net, Op1("T", i))
Prio(i) ==
  /\ up[i] /\ b.prio < MaxPrio
  /\ \E p \in 0..2 : Done("P", i, SetPriorityCall(Cl, nd[i], p), NoRet, [p |-> p], net,
                          Op1("P", i) \o " " \o ToString(p))
  /\ b' = [b EXCEPT !.prio = @ + 1]
Read(i) ==
  /\ up[i] /\ b.read < MaxRead
  /\ LET d == nd[i].d
         L == LogLen(d)
         x == Begin(nd[i])
     IN \/ \E f \in 0..(L + 1), t \in 1..(L + 2) :
             /\ f < t
             /\ Done("Q", i, x, ExpRead(d, f, t), [f |-> f, t |-> t], net,
                     Op1("Q", i) \o " " \o ToString(f) \o " " \o ToString(t))
        \/ \E f \in 0..(d.dec + 1) :
             Done("QD", i, x, IF f < d.dec THEN ExpRead(d, f, d.dec) ELSE [r |-> "none"],
                  [f |-> f], net, Op1("QD", i) \o " " \o ToString(f))
  /\ b' = [b EXCEPT !.read = @ + 1]
TakeOut(i) ==
  /\ ~Eager /\ up[i] /\ Outgoing(nd[i]) # <<>>
  /\ Done("K", i, nd[i], NoRet, NoArg, net, Op1("K", i))
  /\ UNCHANGED b

Next ==
  \/ \E i, j \in Nodes : i # j /\ (Deliver(i, j) \/ Lose(i, j) \/ DropOne(i, j) \/ Recon(i, j))
  \/ \E i \in Nodes : \/ Crash(i) \/ Restart(i) \/ Lead(i) \/ App(i) \/ Rcf(i) \/ Compact(i)
                      \/ TickT(i) \/ Prio(i) \/ TakeOut(i) \/ Read(i)

Spec == Init /\ [][Next]_<<vars, h, xp>>

-----------------------------------------------------------------------------
(* The last event is an observation, not state: it is hidden by the view,  *)
(* and the properties are therefore checked on every transition.           *)
View == <<nd, up, net, b, [o EXCEPT !.ev = NoEv]>>
(* The same without the observer state that only C06 uses *)
Core == <<nd, up, net, b, [o EXCEPT !.ev = NoEv, !.hist = 0, !.proms = 0, !.alen = 0,
                                    !.base = 0, !.api = 0, !.stable = 0, !.creq = 0, !.mindec = 0, !.pend = 0, !.hbn = 0]>>

(* ACTION_CONSTRAINT of the emitting configurations *)
Emitted == Emit => PrintT(<<"PATH", ToJson(h'), ToJson(xp')>>)

pC01 == [][C01(o')]_vars
pC02 == [][C02(o')]_vars
pC03 == [][C03(o')]_vars
pC04 == [][C04(o')]_vars
pC05 == [][C05(o')]_vars
pC06 == [][C06(o')]_vars
pC07 == [][C07(o')]_vars
pC09 == [][C09(o')]_vars
pC10 == [][C10(o')]_vars
pC11 == [][C11(o')]_vars
pC12 == [][C12(o')]_vars
pC13 == [][C13(o')]_vars
pC21 == [][C21(o')]_vars

\* the specification itself is well formed: messages only between servers, caches in range
TypeOK ==
  /\ \A i \in Nodes : /\ nd[i].role \in {"F", "L"} /\ nd[i].ph \in {"N", "P", "A", "R"}
                      /\ nd[i].w = <<>> /\ (Eager => nd[i].out = <<>>)
                      /\ nd[i].d.dec <= LogLen(nd[i].d)
  /\ \A i \in Nodes : nd[i].role = "L" => nd[i].ls.n[3] = Pids[i]
=============================================================================
