------------------------------ MODULE OmniPaxos ------------------------------
(***************************************************************************)
(* Specification of an OmniPaxos server: Sequence Paxos (leader.rs,        *)
(* follower.rs, mod.rs), the log storage layer (internal_storage.rs), the  *)
(* leader state (util.rs) and ballot leader election.                      *)
(*                                                                         *)
(* A server is a record x; every call of the library is an operator that   *)
(* maps x to the server after the call.  One operator per handler of the   *)
(* implementation, so that a recorded call of the real code can be checked *)
(* against exactly one transition.  The operators are used by              *)
(*   OmniPaxosMC.tla  (model checking, simulation) and                     *)
(*   OmniTrace.tla    (conformance of recorded executions).                *)
(*                                                                         *)
(* c is the cluster: [n, pids, rq, wq, batch, prio, ett, rtt, ftt, snap].  *)
(* Servers are 1..c.n (positions in the configuration's node list), pids   *)
(* their ids.                                                              *)
(*                                                                         *)
(* Fields of a server x                                                    *)
(*   i     its position                                                    *)
(*   d     durable state (see Props.tla); what the library caches of it is *)
(*         always equal at the end of a call                               *)
(*   w     durable states written during the current call, in order; a     *)
(*         crash inside the call leaves one of them                        *)
(*   role, ph          "F"/"L",  "N" none "P" prepare "A" accept "R" recover*)
(*   batch             entries not yet written (batching)                  *)
(*   bp, bss           buffered proposals and stop sign (0: none)          *)
(*   out, bout         outgoing Paxos / heartbeat messages                 *)
(*   ls                leader state, see LeaderState0                      *)
(*   fam               index in out of the Accepted that may be updated    *)
(*   cur               sequence number <<session, counter>> of the accepts *)
(*   cp                cached promise (sequence of length 0 or 1)          *)
(*   hr, reps, cb, bl, happy    heartbeat round, replies, own ballot, BLE  *)
(*                              leader, happiness                          *)
(*   prv               the replies of the previous heartbeat round         *)
(*   te, tr, tf        logical clocks: election, resend, flush             *)
(***************************************************************************)
EXTENDS Props, SequencesExt

NoSync == [st |-> "none", sv |-> <<>>, suf |-> <<>>, idx |-> 0, ss |-> 0]

Drop(s, k) == SubSeq(s, k + 1, Len(s))
Ix(c, pid) == CHOOSE j \in 1..c.n : c.pids[j] = pid
Pid(c, x) == c.pids[x.i]
\* peers in the order of the configuration, and all servers by increasing id
Peers(c, i) == SelectSeq([j \in 1..c.n |-> j], LAMBDA j : j # i)
ByPid(c) == [k \in 1..c.n |-> CHOOSE j \in 1..c.n :
               Cardinality({m \in 1..c.n : c.pids[m] < c.pids[j]}) = k - 1]

Send(x, m) == [x EXCEPT !.out = Append(@, m)]
SendAll(c, x, dests, M(_)) ==
  [x EXCEPT !.out = @ \o [k \in 1..Len(dests) |-> M(dests[k])]]

(* a storage write *)
Write(x, d) == IF d = x.d THEN x ELSE [x EXCEPT !.d = d, !.w = Append(@, d)]

AccIdx(x) == LogLen(x.d)
AccIdxNoSS(x) == x.d.cmp + Len(x.d.log)
HasSS(x) == x.d.ss # 0
Leader(x) == x.d.prom[3]
IsL(x) == x.role = "L"

SeqLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

-----------------------------------------------------------------------------
(* Leader state *)
LeaderState0(c, n) ==
  [n   |-> n,                                    \* the round
   pm  |-> [j \in 1..c.n |-> [s |-> "no"]],      \* promises: "no", "yes" with metadata, "hi"gher
   sq  |-> [j \in 1..c.n |-> <<0, 0>>],          \* sequence numbers
   ai  |-> [j \in 1..c.n |-> 0],                 \* accepted indices
   mpm |-> [na |-> Bot, acc |-> 0, dec |-> 0, pid |-> 0],   \* maximum promise
   mps |-> NoSync,                               \* ... and the log that came with it
   lam |-> [j \in 1..c.n |-> 0]]                 \* index in out of the AcceptDecide to extend

Promised(x, j) == x.ls.pm[j].s = "yes"
\* all promised servers except the leader itself, by increasing id
Followers(c, x) == SelectSeq(ByPid(c), LAMBDA j : Promised(x, j) /\ c.pids[j] # x.ls.n[3])
Preparable(c, x) == SelectSeq(Peers(c, x.i), LAMBDA j : x.ls.pm[j].s = "no")

\* Promise p (a message) of server j; check: also a candidate for the maximum
SetPromise(x, j, pid, p, check) ==
  LET m == [s |-> "yes", na |-> p.na, acc |-> p.acc, dec |-> p.dec, pid |-> pid]
      q == x.ls.mpm
      gt == LT(q.na, m.na) \/ (q.na = m.na /\ m.acc > q.acc)
      x1 == IF check /\ gt
            THEN [x EXCEPT !.ls.mpm = [na |-> p.na, acc |-> p.acc, dec |-> p.dec, pid |-> pid],
                           !.ls.mps = p.sync]
            ELSE x
  IN [x1 EXCEPT !.ls.pm[j] = m]
NumPromised(c, x) == Cardinality({j \in 1..c.n : Promised(x, j)})
MaxDecided(c, x) ==
  LET S == {x.ls.pm[j].dec : j \in {k \in 1..c.n : Promised(x, k)}} \union {x.ls.mpm.dec}
  IN CHOOSE m \in S : \A y \in S : y <= m
NextSeq(x, j) == <<x.ls.sq[j][1], x.ls.sq[j][2] + 1>>
IsChosen(c, x, idx) == Cardinality({j \in 1..c.n : x.ls.ai[j] >= idx}) >= c.wq
MinAllAccepted(c, x) ==
  LET S == {x.ls.ai[j] : j \in {k \in 1..c.n : k # x.i}} \union {x.ls.ai[Ix(c, x.ls.n[3])]}
  IN CHOOSE m \in S : \A y \in S : m <= y

-----------------------------------------------------------------------------
(* Log storage *)
\* entries with indices from .. to-1 (0-based as in the code)
Entries(d, from, to) == IF to <= from THEN <<>> ELSE SubSeq(d.log, from - d.cmp + 1, to - d.cmp)
Suffix(d, from) == IF from - d.cmp >= Len(d.log) THEN <<>> ELSE Drop(d.log, from - d.cmp)
SnapUpTo(d, idx) == d.snap \o Entries(d, d.cmp, idx)

AppendEntries(x, es) == Write(x, [x.d EXCEPT !.log = @ \o es])
Flush(x) == [AppendEntries(x, x.batch) EXCEPT !.batch = <<>>]
SetDecided(x, idx) == Write(x, [x.d EXCEPT !.dec = idx])
SetProm(x, n) == Write(x, [x.d EXCEPT !.prom = n])
SetSS(x, ss) == Write(x, [x.d EXCEPT !.ss = ss])

TrimTo(d, idx) == [d EXCEPT !.log = IF idx <= d.cmp THEN @ ELSE Drop(@, Min(idx - d.cmp, Len(@))),
                            !.cmp = idx]
OnPrefix(d, idx, es) == [d EXCEPT !.log = SubSeq(@, 1, Min(Len(@), idx - d.cmp)) \o es]

(* LogSync describing this server's log from a common prefix on *)
CreateSync(c, x, prefix, otherDec) ==
  LET d  == x.d
      ld == LogDec(d)
  IN IF c.snap /\ d.dec > prefix
     THEN LET s == IF otherDec <= d.cmp
                   THEN IF d.cmp < ld THEN [st |-> "c", sv |-> SnapUpTo(d, ld)]
                        ELSE IF d.hs THEN [st |-> "c", sv |-> d.snap]
                        ELSE [st |-> "-", sv |-> <<>>]
                   ELSE [st |-> "d", sv |-> Entries(d, otherDec, ld)]
          IN [st |-> s.st, sv |-> s.sv, suf |-> Suffix(d, d.dec), idx |-> ld, ss |-> d.ss]
     ELSE LET p == Max(Min(prefix, AccIdxNoSS(x)), d.cmp)
          IN [st |-> "-", sv |-> <<>>, suf |-> Suffix(d, p), idx |-> p, ss |-> d.ss]

(* Adopt a log: accepted round n, decided index, and the LogSync; one atomic write *)
SyncLog(x, n, decIdx, sync) ==
  LET d0 == [x.d EXCEPT !.acc = n, !.dec = Max(decIdx, x.d.dec)]
      d1 == CASE sync.st = "c" -> [TrimTo(d0, sync.idx) EXCEPT !.hs = TRUE, !.snap = sync.sv]
              [] sync.st = "d" -> [TrimTo(d0, sync.idx) EXCEPT !.hs = TRUE,
                                      !.snap = SnapUpTo(x.d, LogDec(x.d)) \o sync.sv]
              [] OTHER -> d0
      d2 == IF sync.st = "none" THEN d1
            ELSE [OnPrefix(d1, sync.idx, sync.suf) EXCEPT !.ss = sync.ss]
  IN Write(x, d2)

TryTrim(x, idx) ==      \* <<server, result>>
  IF idx > x.d.dec THEN <<x, [r |-> "ud", v |-> x.d.dec]>>
  ELSE LET k == IF idx = x.d.dec THEN LogDec(x.d) ELSE idx
       IN <<IF k > x.d.cmp THEN Write(x, TrimTo(x.d, k)) ELSE x, [r |-> "ok"]>>
TrySnapshot(x, idx) ==  \* idx = -1: as much as possible
  IF idx > x.d.dec THEN <<x, [r |-> "ud", v |-> x.d.dec]>>
  ELSE LET k == IF idx = -1 \/ idx = x.d.dec THEN LogDec(x.d) ELSE idx
       IN <<IF k > x.d.cmp
            THEN Write(x, [TrimTo(x.d, k) EXCEPT !.hs = TRUE, !.snap = SnapUpTo(x.d, k)])
            ELSE x,
            [r |-> "ok"]>>

-----------------------------------------------------------------------------
(* Messages of the leader *)
PrepareMsg(c, x, j) ==
  [t |-> "Prepare", n |-> x.ls.n, dec |-> x.d.dec, na |-> x.d.acc, acc |-> AccIdx(x),
   from |-> Pid(c, x), to |-> c.pids[j]]
SendPrepare(c, x, j) == Send(x, PrepareMsg(c, x, j))
PrepReqMsg(c, x, j) ==
  [t |-> "PrepareReq", n |-> x.d.prom, from |-> Pid(c, x), to |-> c.pids[j]]

\* index in out of the AcceptDecide to j that may still be extended, or 0
LatestAccDec(x, j) ==
  LET k == x.ls.lam[j] IN
  IF k > 0 /\ k <= Len(x.out) /\ x.out[k].t = "AcceptDecide" THEN k ELSE 0

SendAcceptDecide1(c, x, es, j) ==
  LET k == LatestAccDec(x, j) IN
  IF k > 0
  THEN [x EXCEPT !.out[k].es = @ \o es, !.out[k].dec = x.d.dec]
  ELSE LET q == NextSeq(x, j)
           x1 == [x EXCEPT !.ls.lam[j] = Len(x.out) + 1, !.ls.sq[j] = q]
       IN Send(x1, [t |-> "AcceptDecide", n |-> x.ls.n, sess |-> q[1], ctr |-> q[2],
                    dec |-> x.d.dec, es |-> es, from |-> Pid(c, x), to |-> c.pids[j]])
SendAcceptDecide(c, x, es) ==
  FoldLeft(LAMBDA y, j : SendAcceptDecide1(c, y, es, j), x, Followers(c, x))

SendAcceptSS(c, x, j, ss, resend) ==
  LET q == IF resend THEN x.ls.sq[j] ELSE NextSeq(x, j)
  IN Send([x EXCEPT !.ls.sq[j] = q],
          [t |-> "AcceptSS", n |-> x.ls.n, sess |-> q[1], ctr |-> q[2], ss |-> ss,
           from |-> Pid(c, x), to |-> c.pids[j]])
SendDecide(c, x, j, idx, resend) ==
  LET q == IF resend THEN x.ls.sq[j] ELSE NextSeq(x, j)
  IN Send([x EXCEPT !.ls.sq[j] = q],
          [t |-> "Decide", n |-> x.ls.n, sess |-> q[1], ctr |-> q[2], dec |-> idx,
           from |-> Pid(c, x), to |-> c.pids[j]])

SendAcceptSync(c, x, j) ==
  LET m     == x.ls.pm[j]
      valid == IF m.na = x.ls.n THEN m.acc
               ELSE IF m.na = x.ls.mpm.na THEN Min(x.ls.mpm.acc, m.acc)
               ELSE m.dec
      from  == IF x.ls.sq[j][1] = 0 THEN m.dec ELSE 0
      sync  == CreateSync(c, x, valid, from)
      q     == <<x.ls.sq[j][1] + 1, 1>>
  IN Send([x EXCEPT !.ls.sq[j] = q, !.ls.lam[j] = 0],
          [t |-> "AcceptSync", n |-> x.ls.n, sess |-> q[1], ctr |-> q[2], dec |-> x.d.dec,
           sync |-> sync, from |-> Pid(c, x), to |-> c.pids[j]])

(* entries proposed to a leader in the Accept phase *)
FlushLeader(c, x) ==
  IF x.batch = <<>> THEN x
  ELSE LET es == x.batch
           x1 == Flush(x)
       IN SendAcceptDecide(c, [x1 EXCEPT !.ls.ai[x.i] = AccIdx(x1)], es)
AcceptEntries(c, x, es) ==
  LET x1 == [x EXCEPT !.batch = @ \o es]
  IN IF Len(x1.batch) >= c.batch[x.i]
     THEN IF x1.batch = <<>>      \* an empty forward still sends an (empty) AcceptDecide
          THEN SendAcceptDecide(c, [x1 EXCEPT !.ls.ai[x.i] = AccIdx(x1)], <<>>)
          ELSE FlushLeader(c, x1)
     ELSE x1
AcceptSSLeader(c, x, ss) ==
  LET es == x.batch
      x1 == Flush(x)
      x2 == SetSS(x1, ss)
      x3 == IF es = <<>> THEN x2
            ELSE SendAcceptDecide(c, x2, es)
      x4 == [x3 EXCEPT !.ls.ai[x.i] = AccIdx(x3)]
  IN FoldLeft(LAMBDA y, j : SendAcceptSS(c, y, j, ss, FALSE), x4, Followers(c, x4))

(* Become the leader of round n (ballot leader election or try_become_leader) *)
HandleLeader(c, x, n) ==
  IF LE(n, x.ls.n) \/ LE(n, x.d.prom) THEN x
  ELSE IF n[3] # Pid(c, x) THEN [x EXCEPT !.role = "F"]
  ELSE LET x1 == [x EXCEPT !.ls = LeaderState0(c, n)]
           x2 == SetProm(Flush(x1), n)
           p  == [na |-> x2.d.acc, dec |-> x2.d.dec, acc |-> AccIdx(x2), sync |-> NoSync]
           x3 == SetPromise(x2, x.i, Pid(c, x), p, TRUE)
           x4 == [x3 EXCEPT !.role = "L", !.ph = "P"]
       IN SendAll(c, x4, Peers(c, x.i), LAMBDA j : PrepareMsg(c, x4, j))

HandlePrepareReq(c, x, m) ==
  LET j == Ix(c, m.from) IN
  IF IsL(x) /\ LE(m.n, x.ls.n)
  THEN SendPrepare(c, [x EXCEPT !.ls.pm[j] = [s |-> "no"], !.ls.lam[j] = 0], j)
  ELSE x

HandleMajorityPromises(c, x) ==
  LET sync == x.ls.mps
      x1 == SyncLog([x EXCEPT !.ls.mps = NoSync], x.ls.n, MaxDecided(c, x), sync)
      x2 == IF HasSS(x1) THEN x1
            ELSE LET y1 == IF x1.bp = <<>> THEN x1
                           ELSE [AppendEntries(x1, x1.bp) EXCEPT !.bp = <<>>]
                 IN IF y1.bss = 0 THEN y1
                    ELSE [SetSS(Flush(y1), y1.bss) EXCEPT !.bss = 0]
      x3 == [x2 EXCEPT !.ph = "A", !.role = "L", !.ls.ai[x.i] = AccIdx(x2)]
  IN FoldLeft(LAMBDA y, j : SendAcceptSync(c, y, j), x3, Followers(c, x3))

HandlePromise(c, x, m) ==
  LET j == Ix(c, m.from) IN
  IF ~IsL(x) \/ m.n # x.ls.n THEN x
  ELSE IF x.ph = "P"
  THEN LET x1 == SetPromise(x, j, m.from, m, TRUE) IN
       IF NumPromised(c, x1) >= c.rq THEN HandleMajorityPromises(c, x1) ELSE x1
  ELSE IF x.ph = "A"
  THEN \* the cache sent along (UniCache) already includes what is batched
       LET x1 == IF c.uc THEN FlushLeader(c, x) ELSE x
       IN SendAcceptSync(c, SetPromise(x1, j, m.from, m, FALSE), j)
  ELSE x

HandleAccepted(c, x, m) ==
  LET j == Ix(c, m.from) IN
  IF m.n # x.ls.n \/ ~IsL(x) \/ x.ph # "A" THEN x
  ELSE LET x1 == [x EXCEPT !.ls.ai[j] = m.acc] IN
       IF m.acc > x.d.dec /\ IsChosen(c, x1, m.acc)
       THEN FoldLeft(LAMBDA y, k :
                       LET q == LatestAccDec(y, k) IN
                       IF q > 0 THEN [y EXCEPT !.out[q].dec = m.acc]
                       ELSE SendDecide(c, y, k, m.acc, FALSE),
                     SetDecided(x1, m.acc), Followers(c, x1))
       ELSE x1

HandleNotAccepted(c, x, m) ==
  IF IsL(x) /\ LT(x.ls.n, m.n)
  THEN [x EXCEPT !.ls.pm[Ix(c, m.from)] = [s |-> "hi"]]
  ELSE x

-----------------------------------------------------------------------------
(* Proposals *)
ForwardProposals(c, x, es) ==
  IF Leader(x) > 0 /\ Pid(c, x) # Leader(x)
  THEN Send(x, [t |-> "Forward", es |-> es, from |-> Pid(c, x), to |-> Leader(x)])
  ELSE [x EXCEPT !.bp = @ \o es]
ForwardSS(c, x, ss) ==
  IF Leader(x) > 0 /\ Pid(c, x) # Leader(x)
  THEN Send(x, [t |-> "ForwardSS", ss |-> ss, from |-> Pid(c, x), to |-> Leader(x)])
  ELSE IF x.bss = 0 THEN [x EXCEPT !.bss = ss] ELSE x
ProposeEntries(c, x, es) ==
  IF IsL(x) /\ x.ph = "P" THEN [x EXCEPT !.bp = @ \o es]
  ELSE IF IsL(x) /\ x.ph = "A" THEN AcceptEntries(c, x, es)
  ELSE ForwardProposals(c, x, es)
ProposeSS(c, x, ss) ==
  IF IsL(x) /\ x.ph = "P" THEN [x EXCEPT !.bss = ss]
  ELSE IF IsL(x) /\ x.ph = "A" THEN AcceptSSLeader(c, x, ss)
  ELSE ForwardSS(c, x, ss)

HandleForward(c, x, m) == IF HasSS(x) THEN x ELSE ProposeEntries(c, x, m.es)
HandleForwardSS(c, x, m) == IF HasSS(x) THEN x ELSE ProposeSS(c, x, m.ss)

-----------------------------------------------------------------------------
(* Follower *)
Reconnected(c, x, pid) ==
  IF pid = Pid(c, x) THEN x
  ELSE LET x1 == IF pid = Leader(x) THEN [x EXCEPT !.role = "F", !.ph = "R"] ELSE x
       IN Send(x1, PrepReqMsg(c, x1, Ix(c, pid)))

HandlePrepare(c, x, m) ==
  LET lost == m.na = m.n /\ x.role = "F" /\ x.ph = "A" IN
  IF LT(x.d.prom, m.n) \/ (x.d.prom = m.n /\ (x.ph = "R" \/ lost))
  THEN LET x1 == SetProm(Flush(x), m.n)
           x2 == [x1 EXCEPT !.role = "F", !.ph = "P", !.cur = <<0, 0>>]
           na == x2.d.acc
           acc == AccIdx(x2)
           sync == IF LT(m.na, na) THEN CreateSync(c, x2, m.dec, m.dec)
                   ELSE IF na = m.na /\ acc > m.acc THEN CreateSync(c, x2, m.acc, m.dec)
                   ELSE NoSync
           p == [t |-> "Promise", n |-> m.n, dec |-> x2.d.dec, na |-> na, acc |-> acc,
                 hs |-> sync.st # "none", sync |-> sync, from |-> Pid(c, x), to |-> m.from]
       IN Send([x2 EXCEPT !.cp = <<p>>], p)
  ELSE x

\* <<server, the message is of the promised round>>
CheckBallot(c, x, n) ==
  IF n = x.d.prom THEN <<x, TRUE>>
  ELSE IF LT(n, x.d.prom)
  THEN <<Send(x, [t |-> "NotAccepted", n |-> x.d.prom, from |-> Pid(c, x), to |-> n[3]]), FALSE>>
  ELSE <<Reconnected(c, x, n[3]), FALSE>>

\* <<server, the message is the next one of the session>>
CheckSeq(c, x, q, pid) ==
  IF q[1] = x.cur[1] /\ q[2] = x.cur[2] + 1 THEN <<[x EXCEPT !.cur = q], TRUE>>
  ELSE IF SeqLE(q, x.cur) THEN <<x, FALSE>>
  ELSE <<Reconnected(c, x, pid), FALSE>>

ReplyAccepted(c, x, n, idx) ==
  LET f == x.fam IN
  IF f # <<>> /\ f[1] = n /\ f[2] <= Len(x.out) /\ x.out[f[2]].t = "Accepted"
  THEN [x EXCEPT !.out[f[2]].acc = idx]
  ELSE Send([x EXCEPT !.fam = <<n, Len(x.out) + 1>>],
            [t |-> "Accepted", n |-> n, acc |-> idx, from |-> Pid(c, x), to |-> n[3]])

HandleAcceptSync(c, x0, m) ==
  LET cb == CheckBallot(c, x0, m.n)
      x == cb[1]
  IN IF ~cb[2] \/ x.role # "F" \/ x.ph # "P" THEN x
     ELSE LET x1 == SyncLog([x EXCEPT !.cp = <<>>], m.n, m.dec, m.sync)
              acc == AccIdx(x1)
              x2 == IF HasSS(x1) THEN x1
                    ELSE LET y1 == IF x1.bp = <<>> THEN x1
                                   ELSE ForwardProposals(c, [x1 EXCEPT !.bp = <<>>], x1.bp)
                         IN IF y1.bss = 0 THEN y1
                            ELSE ForwardSS(c, [y1 EXCEPT !.bss = 0], y1.bss)
              x3 == [x2 EXCEPT !.role = "F", !.ph = "A", !.cur = <<m.sess, m.ctr>>,
                               !.fam = <<m.n, Len(x2.out) + 1>>]
          IN Send(x3, [t |-> "Accepted", n |-> m.n, acc |-> acc, from |-> Pid(c, x), to |-> m.from])

\* <<server, new accepted index or -1>>
UpdateDecided(x, idx) ==
  IF idx <= x.d.dec THEN <<x, -1>>
  ELSE IF idx > AccIdx(x)
  THEN LET x1 == Flush(x) IN <<SetDecided(x1, Min(idx, AccIdx(x1))), AccIdx(x1)>>
  ELSE <<SetDecided(x, idx), -1>>

HandleAcceptDecide(c, x0, m) ==
  LET cb == CheckBallot(c, x0, m.n) IN
  IF ~cb[2] \/ cb[1].role # "F" \/ cb[1].ph # "A" THEN cb[1]
  ELSE LET cs == CheckSeq(c, cb[1], <<m.sess, m.ctr>>, m.n[3]) IN
  IF ~cs[2] THEN cs[1]
  ELSE LET x == [cs[1] EXCEPT !.batch = @ \o m.es]
           full == Len(x.batch) >= c.batch[x.i]
           x1 == IF full THEN Flush(x) ELSE x
           ud == UpdateDecided(x1, m.dec)
           acc == IF ud[2] >= 0 THEN ud[2] ELSE IF full THEN AccIdx(x1) ELSE -1
       IN IF acc >= 0 THEN ReplyAccepted(c, ud[1], m.n, acc) ELSE ud[1]

HandleAcceptSS(c, x0, m) ==
  LET cb == CheckBallot(c, x0, m.n) IN
  IF ~cb[2] \/ cb[1].role # "F" \/ cb[1].ph # "A" THEN cb[1]
  ELSE LET cs == CheckSeq(c, cb[1], <<m.sess, m.ctr>>, m.n[3]) IN
  IF ~cs[2]
  THEN \* an outdated one was sent again since the reply did not arrive
       IF HasSS(cs[1]) /\ SeqLE(<<m.sess, m.ctr>>, cb[1].cur)
       THEN ReplyAccepted(c, cs[1], m.n, AccIdx(cs[1])) ELSE cs[1]
  ELSE LET x == SetSS(Flush(cs[1]), m.ss)
       IN ReplyAccepted(c, x, m.n, AccIdx(x))

HandleDecide(c, x0, m) ==
  LET cb == CheckBallot(c, x0, m.n) IN
  IF ~cb[2] \/ cb[1].ph # "A" THEN cb[1]
  ELSE LET cs == CheckSeq(c, cb[1], <<m.sess, m.ctr>>, m.n[3]) IN
  IF ~cs[2] THEN cs[1]
  ELSE LET ud == UpdateDecided(cs[1], m.dec)
       IN IF ud[2] >= 0 THEN ReplyAccepted(c, ud[1], m.n, ud[2]) ELSE ud[1]

-----------------------------------------------------------------------------
(* Timeouts *)
PrepReqToAll(c, x) == SendAll(c, x, Peers(c, x.i), LAMBDA j : PrepReqMsg(c, x, j))

ResendPrepares(c, x) ==
  FoldLeft(LAMBDA y, j : SendPrepare(c, y, j), x, Preparable(c, x))
ResendTimeout(c, x) ==
  IF IsL(x)
  THEN CASE x.ph = "P" -> ResendPrepares(c, x)
         [] x.ph = "A" ->
              ResendPrepares(c,
                IF ~HasSS(x) THEN x
                ELSE FoldLeft(LAMBDA y, j :
                       IF SSDecided(y.d) THEN SendDecide(c, y, j, y.d.dec, TRUE)
                       ELSE IF y.ls.ai[j] # AccIdx(y) THEN SendAcceptSS(c, y, j, y.d.ss, TRUE)
                       ELSE y, x, Followers(c, x)))
         [] OTHER -> x
  ELSE CASE x.ph = "P" ->
              IF x.cp # <<>> THEN Send(x, [x.cp[1] EXCEPT !.to = x.cp[1].n[3]])
              ELSE LET x1 == [x EXCEPT !.role = "F", !.ph = "R"] IN PrepReqToAll(c, x1)
         [] x.ph = "R" -> PrepReqToAll(c, x)
         [] OTHER -> x

FlushTimeout(c, x) ==
  IF x.ph # "A" THEN x
  ELSE IF IsL(x) THEN FlushLeader(c, x)
  ELSE LET x1 == Flush(x)
       IN IF AccIdx(x1) > AccIdx(x) THEN ReplyAccepted(c, x1, x1.d.prom, AccIdx(x1)) ELSE x1

(* Ballot leader election *)
NewHbRound(c, x) ==
  [x EXCEPT !.prv = x.reps, !.reps = <<>>, !.hr = @ + 1,
            !.bout = @ \o [k \in 1..(c.n - 1) |->
                             [t |-> "HbReq", r |-> x.hr + 1, from |-> Pid(c, x),
                              to |-> c.pids[Peers(c, x.i)[k]]]]]
UpdateLeader(x) ==
  LET mb == FoldLeft(LAMBDA b, r : BMax(b, r.b), x.cb, x.reps)
  IN IF LT(x.bl, mb) THEN [x EXCEPT !.bl = mb] ELSE x
UpdateHappiness(c, x) ==
  LET R == {k \in 1..Len(x.reps) : TRUE}
      pot == Cardinality({k \in R : LE(x.reps[k].l, x.cb)})
  IN [x EXCEPT !.happy =
        IF x.bl = x.cb
        THEN \/ pot + 1 >= (IF IsL(x) /\ x.ph = "A" THEN c.wq ELSE c.rq)
             \/ \E k \in R : LT(x.cb, x.reps[k].l) /\ x.reps[k].h
        ELSE \E k \in R : x.reps[k].b = x.bl /\ x.reps[k].h]
CheckTakeover(c, x) ==
  LET own == x.bl[3] = Pid(c, x) /\ x.cb[1] < x.bl[1]
      unhappy == \A k \in 1..Len(x.reps) : ~x.reps[k].h \/ (own /\ LT(x.reps[k].l, x.bl))
  IN IF ~x.happy /\ unhappy /\ Len(x.reps) + 1 >= c.rq
     THEN LET b == <<x.bl[1] + 1, x.cb[2], x.cb[3]>>
          IN [x EXCEPT !.cb = b, !.bl = b, !.happy = TRUE]
     ELSE x
ElectionTimeout(c, x) ==
  LET x1 == NewHbRound(c, CheckTakeover(c, UpdateHappiness(c, UpdateLeader(x))))
      x2 == IF LT(x1.bl, x.d.prom)
            THEN [x1 EXCEPT !.bl = x.d.prom, !.happy = TRUE,
                            !.cb = IF x.d.prom[3] = Pid(c, x) THEN x.d.prom ELSE @]
            ELSE x1
  IN IF x2.bl = x2.cb THEN HandleLeader(c, x2, x2.cb) ELSE x2
HandleHbReq(c, x, m) ==
  [x EXCEPT !.bout = Append(@, [t |-> "HbRep", r |-> m.r, b |-> x.cb, l |-> x.bl, h |-> x.happy,
                                from |-> Pid(c, x), to |-> m.from])]
HandleHbRep(c, x, m) ==
  \* a restarted server may get two answers from a server in one round: the last one counts
  IF m.r = x.hr THEN [x EXCEPT !.reps = Append(SelectSeq(@, LAMBDA q : q.b[3] # m.b[3]), [b |-> m.b, l |-> m.l, h |-> m.h])] ELSE x

-----------------------------------------------------------------------------
(* The calls of the library.  Each starts with w = <<>> *)
Begin(x) == [x EXCEPT !.w = <<>>]

Fire(t, timeout) == t + 1 = timeout
Bump(t, timeout) == IF Fire(t, timeout) THEN 0 ELSE t + 1
Tick(c, x0) ==
  LET x == Begin(x0)
      x1 == IF Fire(x.te, c.ett) THEN ElectionTimeout(c, x) ELSE x
      x2 == IF Fire(x.tr, c.rtt) THEN ResendTimeout(c, x1) ELSE x1
      x3 == IF Fire(x.tf, c.ftt) THEN FlushTimeout(c, x2) ELSE x2
  IN [x3 EXCEPT !.te = Bump(x.te, c.ett), !.tr = Bump(x.tr, c.rtt),
                !.tf = IF c.ftt = 0 THEN 0 ELSE Bump(x.tf, c.ftt)]

Handle(c, x0, m) ==
  LET x == Begin(x0) IN
  CASE m.t = "HbReq"        -> HandleHbReq(c, x, m)
    [] m.t = "HbRep"        -> HandleHbRep(c, x, m)
    [] m.t = "PrepareReq"   -> HandlePrepareReq(c, x, m)
    [] m.t = "Prepare"      -> HandlePrepare(c, x, m)
    [] m.t = "Promise"      -> HandlePromise(c, x, m)
    [] m.t = "AcceptSync"   -> HandleAcceptSync(c, x, m)
    [] m.t = "AcceptDecide" -> HandleAcceptDecide(c, x, m)
    [] m.t = "Accepted"     -> HandleAccepted(c, x, m)
    [] m.t = "NotAccepted"  -> HandleNotAccepted(c, x, m)
    [] m.t = "Decide"       -> HandleDecide(c, x, m)
    [] m.t = "Forward"      -> HandleForward(c, x, m)
    [] m.t = "CTrim"        -> TryTrim(x, m.x)[1]
    [] m.t = "CSnap"        -> TrySnapshot(x, m.x)[1]
    [] m.t = "AcceptSS"     -> HandleAcceptSS(c, x, m)
    [] m.t = "ForwardSS"    -> HandleForwardSS(c, x, m)
    [] OTHER -> x

AppendCall(c, x0, v) ==       \* <<server, result>>
  LET x == Begin(x0) IN
  IF HasSS(x) THEN <<x, [r |-> "pe", v |-> v]>>
  ELSE <<ProposeEntries(c, x, <<v>>), [r |-> "ok"]>>
ReconfigureCall(c, x0, v) ==
  LET x == Begin(x0) IN
  IF HasSS(x) THEN <<x, [r |-> "pc", v |-> v]>>
  ELSE <<ProposeSS(c, x, v), [r |-> "ok"]>>
TrimCall(c, x0, idx) ==
  LET x == Begin(x0) IN
  IF ~IsL(x) THEN <<x, [r |-> "nl", v |-> Leader(x)]>>
  ELSE LET m == MinAllAccepted(c, x) IN
       IF idx > m THEN <<x, [r |-> "na", v |-> m]>>
       ELSE LET k == IF idx = -1 THEN m ELSE idx
                t == TryTrim(x, k)
            IN IF t[2].r = "ok"
               THEN <<SendAll(c, t[1], Peers(c, x.i), LAMBDA j :
                        [t |-> "CTrim", x |-> k, from |-> Pid(c, x), to |-> c.pids[j]]), t[2]>>
               ELSE t
SnapshotCall(c, x0, idx, local) ==
  LET x == Begin(x0)
      t == TrySnapshot(x, idx)
  IN IF t[2].r = "ok" /\ ~local
     THEN <<SendAll(c, t[1], Peers(c, x.i), LAMBDA j :
              [t |-> "CSnap", x |-> idx, from |-> Pid(c, x), to |-> c.pids[j]]), t[2]>>
     ELSE t
ReconnectedCall(c, x, pid) == Reconnected(c, Begin(x), pid)
SetPriorityCall(c, x, p) == [Begin(x) EXCEPT !.cb = <<@[1], p, @[3]>>]
BecomeLeaderCall(c, x) == HandleLeader(c, Begin(x), <<x.d.prom[1] + 1, x.cb[2], x.cb[3]>>)

(* take_outgoing_messages *)
Outgoing(x) == x.out \o x.bout
Taken(c, x) == [x EXCEPT !.out = <<>>, !.bout = <<>>, !.fam = <<>>,
                         !.ls.lam = [j \in 1..c.n |-> 0]]

(* Build a server on durable state d; fresh: nothing was ever stored *)
Start(c, i, d, fresh) ==
  LET rec == ~fresh /\ d.prom # Bot
      cb == <<IF rec THEN 0 ELSE 1, c.prio[i], c.pids[i]>>
      x == [i |-> i, d |-> d, w |-> <<>>, role |-> "F", ph |-> IF fresh THEN "N" ELSE "R",
            batch |-> <<>>, bp |-> <<>>, bss |-> 0, out |-> <<>>, bout |-> <<>>,
            ls |-> LeaderState0(c, d.prom), fam |-> <<>>, cur |-> <<0, 0>>, cp |-> <<>>,
            hr |-> 0, reps |-> <<>>, prv |-> <<>>, cb |-> cb, bl |-> IF rec THEN d.prom ELSE cb, happy |-> TRUE,
            te |-> 0, tr |-> 0, tf |-> 0]
  IN NewHbRound(c, IF fresh THEN x ELSE PrepReqToAll(c, x))

(* What the API reports *)
Api(x) == [dec |-> x.d.dec, cmp |-> x.d.cmp, prom |-> x.d.prom, lead |-> x.d.prom[3],
           lacc |-> x.d.prom[3] # 0 /\ x.ph = "A",
           rcf |-> IF SSDecided(x.d) THEN x.d.ss ELSE 0,
           ui |-> [dec |-> x.d.dec, lead |-> x.d.prom[3], cb |-> x.cb, hb |-> x.prv, ai |-> x.ls.ai]]
=============================================================================
