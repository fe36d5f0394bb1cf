------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties C01-C14, C16 and C18-C22 as predicates over an           *)
(* OBSERVER of a replicated-log cluster.  The observer sees only what a    *)
(* user (or the disk) can see: every durable state of every server,        *)
(* including the ones in the middle of a call, what the API reports, the   *)
(* result of each call, and each message that leaves a server.             *)
(*                                                                         *)
(* The same observer is driven in two ways:                                *)
(*   - by OmniPaxosMC.tla, from the transitions of the specification;      *)
(*   - by PropTrace.tla, from executions recorded from the real code.      *)
(* So there is a single statement of every property.                       *)
(*                                                                         *)
(* Observer state o (a record):                                            *)
(*   cfg    [n, pids, rq, wq, prio, snap, uc, batch]                       *)
(*   disk   server -> last durable state [prom,acc,dec,cmp,hs,snap,log,ss] *)
(*   base   server -> durable state at the end of its previous call        *)
(*   full   server -> the whole log its disk stands for (compacted prefix, *)
(*          entries, stop sign)                                            *)
(*   chosen the longest log any server has ever reported as decided        *)
(*   chr    the round the server was in that last made chosen longer      *)
(*   decl   server -> longest decided log it ever had                      *)
(*   rounds round  -> longest log any server held while it had accepted it *)
(*   mprom, macc, mcmp, mdec   server -> maximum so far                    *)
(*   hist   server -> set of <<accepted round, log length, decided index>> *)
(*   proms  server -> set of promised rounds                               *)
(*   alen   server -> round -> longest log it stored in that round         *)
(*   led    round  -> <<server, incarnation>> that first led it            *)
(*   relead rounds led by somebody else / by a restarted server again      *)
(*   props  value  -> [node, ok, unk, lead]  what was proposed             *)
(*   hbn    server -> ticks since its start, number of its heartbeat       *)
(*          round, replies that arrived in it, and in the one before       *)
(*   wait   server -> entries it took as leader since its log last grew    *)
(*   idle   all is agreed on and nobody asked for anything since           *)
(*   inc, up, api, faulty, stable, mindec, creq    bookkeeping             *)
(*   ev     what the last step was                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SSBASE  == 900000       \* values from here on are stop signs
CORRUPT == 888888
Bot     == <<0, 0, 0>>  \* the initial round

IsSS(v) == v >= SSBASE
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Prefix(a, b) == /\ Len(a) <= Len(b)
                /\ \A k \in 1..Len(a) : a[k] = b[k]
Consistent(a, b) == \A k \in 1..Min(Len(a), Len(b)) : a[k] = b[k]
Take(s, k) == SubSeq(s, 1, Min(k, Len(s)))
Pad(s, k) == [x \in 1..k |-> IF x <= Len(s) THEN s[x] ELSE CORRUPT]

\* rounds are ordered by number, then priority, then server id
LT(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
LE(a, b) == a = b \/ LT(a, b)
BMax(a, b) == IF LT(a, b) THEN b ELSE a

SSPart(d) == IF d.ss = 0 THEN <<>> ELSE <<d.ss>>
LogLen(d) == d.cmp + Len(d.log) + (IF d.ss = 0 THEN 0 ELSE 1)
SSDecided(d) == d.ss # 0 /\ d.dec = LogLen(d)
\* number of decided positions that are not the stop sign
LogDec(d) == IF SSDecided(d) THEN d.dec - 1 ELSE d.dec

EmptyDisk == [prom |-> Bot, acc |-> Bot, dec |-> 0, cmp |-> 0, hs |-> FALSE,
              snap |-> <<>>, log |-> <<>>, ss |-> 0, bad |-> FALSE]
NoEv == [k |-> "-", i |-> 1]
NoApi == [dec |-> 0, cmp |-> 0, prom |-> Bot, lead |-> 0, lacc |-> FALSE, rcf |-> 0, ui |-> <<>>]

ObsInit(cfg) ==
  LET N == 1..cfg.n IN
  [cfg |-> cfg,
   disk |-> [i \in N |-> EmptyDisk], base |-> [i \in N |-> EmptyDisk],
   full |-> [i \in N |-> <<>>], chosen |-> <<>>, chr |-> Bot, decl |-> [i \in N |-> <<>>],
   rounds |-> <<>>,
   mprom |-> [i \in N |-> Bot], macc |-> [i \in N |-> Bot],
   mcmp |-> [i \in N |-> 0], mdec |-> [i \in N |-> 0],
   hist |-> [i \in N |-> {<<Bot, 0, 0>>}], proms |-> [i \in N |-> {Bot}],
   alen |-> [i \in N |-> <<>>],
   led |-> <<>>, relead |-> {}, props |-> <<>>,
   inc |-> [i \in N |-> 0], up |-> [i \in N |-> FALSE], api |-> [i \in N |-> NoApi],
   faulty |-> FALSE, idle |-> FALSE, stable |-> <<>>, mindec |-> 0, creq |-> -2,
   hbn |-> [i \in N |-> [tk |-> 0, r |-> 1, cur |-> <<>>, prv |-> <<>>]],
   wait |-> [i \in N |-> 0],
   pend |-> 0,          \* value proposed by the call in progress
   ev |-> NoEv]

FullOf(o, i, d) ==
  (IF o.cfg.snap
   THEN Pad(d.snap, d.cmp)
   ELSE Pad(Take(o.full[i], d.cmp), d.cmp)) \o d.log \o SSPart(d)

(* server i's durable state is now d *)
ObsDisk(o, i, d) ==
  LET f   == FullOf(o, i, d)
      dl  == Take(f, d.dec)
      r   == IF d.acc \in DOMAIN o.rounds THEN o.rounds[d.acc] ELSE <<>>
      al  == IF d.acc \in DOMAIN o.alen[i] THEN o.alen[i][d.acc] ELSE 0
  IN IF d.bad THEN [o EXCEPT !.disk[i] = d, !.ev = NoEv] ELSE
     [o EXCEPT
        !.disk[i] = d,
        !.full[i] = f,
        !.chr     = IF Len(dl) > Len(o.chosen) THEN d.acc ELSE @,
        !.chosen  = IF Len(dl) > Len(@) THEN @ \o SubSeq(dl, Len(@) + 1, Len(dl)) ELSE @,
        !.decl[i] = IF Prefix(@, dl) THEN dl ELSE @,
        !.rounds  = IF d.acc # Bot /\ Consistent(r, f) /\ (Len(f) > Len(r) \/ d.acc \notin DOMAIN @)
                    THEN (d.acc :> f) @@ @ ELSE @,
        !.mprom[i] = BMax(@, d.prom),
        !.macc[i]  = BMax(@, d.acc),
        !.mcmp[i]  = Max(@, d.cmp),
        !.mdec[i]  = Max(@, d.dec),
        !.hist[i]  = @ \union {<<d.acc, Len(f), d.dec>>},
        !.proms[i] = @ \union {d.prom},
        !.alen[i]  = (d.acc :> Max(al, Len(f))) @@ @,
        !.ev = NoEv]

-----------------------------------------------------------------------------
(* Messages *)
LeaderMsgs == {"Prepare", "AcceptSync", "AcceptDecide", "AcceptSS", "Decide"}
LeaderMsg(m) == m.t \in LeaderMsgs

RECURSIVE ObsLed(_, _, _, _)
ObsLed(o, i, out, k) ==
  IF k > Len(out) THEN o
  ELSE LET m == out[k] IN
       ObsLed(IF ~LeaderMsg(m) THEN o
              ELSE IF m.n \notin DOMAIN o.led
                   THEN [o EXCEPT !.led = (m.n :> <<i, o.inc[i]>>) @@ @]
                   ELSE IF o.led[m.n] # <<i, o.inc[i]>>
                        THEN [o EXCEPT !.relead = @ \union {<<m.n, i>>}]
                        ELSE o,
              i, out, k + 1)

(* Heartbeat rounds last ett ticks; a reply counts in the round it answers, *)
(* and the last one of each server if there are several                    *)
ObsHb(o, e) ==
  LET i == e.i
      q == o.hbn[i]
  IN IF e.k = "U" THEN [o EXCEPT !.hbn[i] = [tk |-> 0, r |-> 1, cur |-> <<>>, prv |-> <<>>]]
     ELSE IF e.k = "T"
     THEN [o EXCEPT !.hbn[i] = IF (q.tk + 1) % o.cfg.ett = 0
                               THEN [tk |-> 0, r |-> q.r + 1, cur |-> <<>>, prv |-> q.cur]
                               ELSE [q EXCEPT !.tk = @ + 1]]
     ELSE IF e.k = "D" /\ e.in.t = "HbRep"
     THEN IF e.in.r = q.r
          THEN [o EXCEPT !.hbn[i].cur = Append(SelectSeq(@, LAMBDA r : r.b[3] # e.in.b[3]), [b |-> e.in.b, l |-> e.in.l, h |-> e.in.h])]
          ELSE o
     ELSE o

(* Entries that a leader in the Accept phase took and that may wait in its batch *)
ObsWait(o, e) ==
  LET i    == e.i
      was  == o.api[i]
      base == o.base[i]
      new  == IF e.k = "A" /\ e.ret.r = "ok" THEN 1
              ELSE IF e.k = "D" /\ e.in.t = "Forward" THEN Len(e.in.es) ELSE 0
  IN IF \/ ~e.up \/ e.d.bad \/ e.k = "U"
        \/ was.lead # o.cfg.pids[i] \/ ~was.lacc \/ was.prom # e.a.prom
        \/ base.ss # 0 \/ LogLen(e.d) # LogLen(base)
     THEN 0 ELSE o.wait[i] + new

(* A call on server i has ended.  e is the event record:                   *)
(*   k kind, i server, ret result, up still running, pan the library       *)
(*   panicked, d durable state, a API state, out messages that left,       *)
(*   plus arguments (j, v, x, l, f, t, in)                                 *)
ObsEnd(o, e) ==
  LET i  == e.i
      o1 == ObsDisk(o, i, e.d)
      o2 == [o1 EXCEPT !.up[i] = e.up,
                       !.inc[i] = IF e.k = "U" /\ e.up THEN @ + 1 ELSE @,
                       !.api[i] = IF e.up THEN e.a ELSE @,
                       !.wait[i] = ObsWait(o, e),
                       !.idle = @ /\ e.up /\ e.k \in {"T", "D", "K"},
                       !.faulty = @ \/ ~e.up \/ (e.k = "U" /\ o.inc[i] > 0)]
      o3 == IF e.k \in {"A", "G"}
            THEN [o2 EXCEPT !.props =
                   (e.v :> [node |-> i, ok |-> e.ret.r = "ok", unk |-> e.ret.r = "-",
                            lead |-> o.api[i].lead # 0]) @@ @]
            ELSE o2
      o4 == IF e.k = "M"
            THEN [o3 EXCEPT !.creq = IF o.base[i].prom[3] = o.cfg.pids[i] THEN e.x ELSE -2]
            ELSE IF e.k = "S" THEN [o3 EXCEPT !.creq = e.x] ELSE o3
      o5 == ObsHb(ObsLed(o4, i, e.out, 1), e)
  IN [o5 EXCEPT !.ev = [e EXCEPT !.before = o.base[i], !.was = o.api[i]], !.base[i] = e.d]

(* link and process faults *)
ObsFault(o) == [o EXCEPT !.faulty = TRUE, !.idle = FALSE, !.ev = NoEv]
ObsDown(o, i) == [o EXCEPT !.faulty = TRUE, !.idle = FALSE, !.up[i] = FALSE, !.base[i] = o.disk[i], !.ev = NoEv]
ObsSkip(o) == [o EXCEPT !.ev = NoEv]

(* an expectation probe, see the Expect operators below *)
ObsExpect(o, x, s) ==
  LET o1 == [o EXCEPT !.ev = [k |-> "E", i |-> 1, x |-> x, s |-> s, mindec |-> o.mindec,
                              creq |-> o.creq, stable |-> o.stable]]
  IN CASE x = 1 -> [o1 EXCEPT !.mindec = Len(o.chosen), !.creq = -2]
       [] x = 2 -> [o1 EXCEPT !.stable = [i \in 1..o.cfg.n |-> o.disk[i].prom],
                              !.idle = \A i \in 1..o.cfg.n :
                                         /\ o.up[i] /\ o.api[i].lacc
                                         /\ o.disk[i].prom = o.disk[1].prom
                                         /\ o.disk[i].dec = Len(o.chosen)]
       [] x = 10 -> [o1 EXCEPT !.stable = [i \in 1..o.cfg.n |-> o.disk[i].prom]]
       [] OTHER -> o1

-----------------------------------------------------------------------------
N(o) == 1..o.cfg.n
EndOfCall(o) == o.ev.k \notin {"-", "E"}
Stopped(o) == \E k \in 1..Len(o.chosen) : IsSS(o.chosen[k])
ChosenSet(o) == {o.chosen[k] : k \in 1..Len(o.chosen)}
Readable(o, i) == ~o.disk[i].bad

(* C01 Agreement *)
C01(o) == \A i \in N(o) : Readable(o, i) => Prefix(Take(o.full[i], o.disk[i].dec), o.chosen)

(* C02 Stability *)
C02(o) ==
  /\ \A i \in N(o) : Readable(o, i) =>
            /\ o.disk[i].dec = o.mdec[i]
            /\ o.disk[i].dec <= Len(o.full[i])
            /\ Prefix(o.decl[i], Take(o.full[i], o.disk[i].dec))
  /\ (EndOfCall(o) /\ o.ev.up /\ ~o.ev.d.bad) =>
       o.ev.was.dec <= o.ev.a.dec /\ o.ev.a.dec <= Len(o.full[o.ev.i])

(* C03 Validity, at most once *)
C03(o) ==
  /\ \A k \in 1..Len(o.chosen) :
       LET v == o.chosen[k] IN
       IF v \in DOMAIN o.props THEN o.props[v].ok \/ o.props[v].unk
       ELSE \* the call that proposed it has not returned yet
            o.ev.k = "-" /\ o.pend = v
  /\ \A k, m \in 1..Len(o.chosen) : o.chosen[k] = o.chosen[m] => k = m

(* C04 Durability on a write quorum: all that was ever decided is in the   *)
(* logs of that many servers, accepted in the round that decided it or a   *)
(* later one; nobody announces more than it decided                        *)
C04(o) ==
  /\ (\A i \in N(o) : Readable(o, i)) => Cardinality({j \in N(o) : LE(o.chr, o.disk[j].acc) /\ Prefix(o.chosen, o.full[j])}) >= o.cfg.wq
  /\ EndOfCall(o) => \A k \in 1..Len(o.ev.out) :
       LET m == o.ev.out[k] IN
       m.t \in {"AcceptSync", "AcceptDecide", "Decide"} => m.dec <= o.mdec[o.ev.i]

(* C05 Rounds *)
C05(o) ==
  /\ \A i \in N(o) : Readable(o, i) =>
       LET d == o.disk[i] IN
       /\ d.prom = o.mprom[i]
       /\ d.acc = o.macc[i]
       /\ LE(d.acc, d.prom)
       /\ IF d.acc = Bot THEN o.full[i] = <<>>
          ELSE Prefix(o.full[i], o.rounds[d.acc])
  /\ (EndOfCall(o) /\ o.ev.up /\ ~o.ev.d.bad) => LE(o.ev.was.prom, o.ev.a.prom)
  /\ (o.ev.k = "D" /\ o.ev.up /\ ~o.ev.d.bad) =>
       LET m == o.ev.in
           b == o.ev.before
           d == o.ev.d
       IN (LeaderMsg(m) /\ LT(m.n, b.prom)) =>
            /\ b.prom = d.prom /\ b.acc = d.acc /\ b.dec = d.dec
            /\ b.cmp = d.cmp /\ b.log = d.log /\ b.ss = d.ss

(* C06 Durable before claimed *)
RoundLog(o, r) == IF r \in DOMAIN o.rounds THEN o.rounds[r] ELSE <<>>
Stored(o, i, r) == IF r \in DOMAIN o.alen[i] THEN o.alen[i][r] ELSE 0
SyncLen(s) == s.idx + Len(s.suf) + (IF s.ss = 0 THEN 0 ELSE 1)
\* the entries, the stop sign and the snapshot in s are those of the log f
SyncOf(f, s) ==
  LET e == s.suf \o (IF s.ss = 0 THEN <<>> ELSE <<s.ss>>) IN
  /\ SyncLen(s) <= Len(f)
  /\ SubSeq(f, s.idx + 1, SyncLen(s)) = e
  /\ s.st = "c" => s.sv = Take(f, s.idx)
  /\ s.st = "d" => /\ Len(s.sv) <= s.idx
                   /\ s.sv = SubSeq(f, s.idx - Len(s.sv) + 1, s.idx)
Within(e, f) == \E p \in 0..(Len(f) - Len(e)) : e = SubSeq(f, p + 1, p + Len(e))
Content(o, i, m) ==
  CASE m.t = "Promise" -> m.hs => SyncLen(m.sync) = m.acc /\ SyncOf(RoundLog(o, m.na), m.sync)
    [] m.t = "AcceptSync" -> SyncOf(Take(RoundLog(o, m.n), Stored(o, i, m.n)), m.sync)
    [] m.t = "AcceptDecide" -> o.cfg.uc \/ Within(m.es, Take(RoundLog(o, m.n), Stored(o, i, m.n)))
    [] m.t = "AcceptSS" -> Within(<<m.ss>>, Take(RoundLog(o, m.n), Stored(o, i, m.n)))
    [] OTHER -> TRUE
Claimed(o, i, m) ==
  CASE m.t = "Prepare" ->
         m.n \in o.proms[i] /\ <<m.na, m.acc, m.dec>> \in o.hist[i]
    [] m.t = "Promise" ->
         /\ m.n \in o.proms[i] /\ LE(m.n, o.disk[i].prom)
         /\ <<m.na, m.acc, m.dec>> \in o.hist[i]
    [] m.t = "Accepted" ->
         IF m.n \in DOMAIN o.alen[i] THEN m.acc <= o.alen[i][m.n] ELSE m.acc = 0
    [] m.t \in {"AcceptSync", "AcceptDecide", "Decide"} ->
         m.n \in o.proms[i] /\ m.dec <= o.mdec[i]
    [] m.t = "AcceptSS" -> m.n \in o.proms[i]
    [] OTHER -> TRUE
C06(o) == (EndOfCall(o) /\ o.ev.up /\ ~o.ev.d.bad) =>
            LET i == o.ev.i IN
            /\ o.ev.a.dec = o.disk[i].dec
            /\ o.ev.a.cmp = o.disk[i].cmp
            /\ o.ev.a.prom = o.disk[i].prom
            /\ \A k \in 1..Len(o.ev.out) : Claimed(o, i, o.ev.out[k]) /\ Content(o, i, o.ev.out[k])

(* What a read returns, see C10 *)
ReadElem(d, k) ==
  IF k - d.cmp < Len(d.log)
  THEN <<IF k < d.dec THEN "d" ELSE "u", d.log[k - d.cmp + 1]>>
  ELSE <<"x", d.ss, d.dec = LogLen(d)>>
ExpRead(d, a, b) ==      \* a < b
  IF b > LogLen(d) THEN [r |-> "none"]
  ELSE [r |-> "some",
        es |-> (IF a < d.cmp
                THEN IF d.hs THEN << <<"s", d.cmp, d.snap>> >> ELSE << <<"t", d.cmp>> >>
                ELSE <<>>)
               \o (IF b <= Max(a, d.cmp) THEN <<>>
                   ELSE [x \in 1..(b - Max(a, d.cmp)) |-> ReadElem(d, Max(a, d.cmp) + x - 1)])]
ReadOK(ret, exp) ==
  IF exp.r = "none" THEN ret.r = "none" ELSE ret.r = "some" /\ ret.es = exp.es

(* C07 Crash recovery *)
SameDisk(a, b) == /\ a.prom = b.prom /\ a.acc = b.acc /\ a.dec = b.dec /\ a.cmp = b.cmp
                  /\ a.hs = b.hs /\ a.snap = b.snap /\ a.log = b.log /\ a.ss = b.ss
C07(o) ==
  /\ \A i \in N(o) : Readable(o, i) =>
       LET d == o.disk[i] IN
       d.dec <= Len(o.full[i]) /\ d.cmp <= d.dec /\ LE(d.acc, d.prom)
  /\ o.ev.k = "U" =>
       LET d == o.ev.d IN
       /\ o.ev.up /\ SameDisk(o.ev.before, d)
       \* and this is what it reports
       /\ ~d.bad =>
            /\ o.ev.a.dec = d.dec /\ o.ev.a.cmp = d.cmp /\ o.ev.a.prom = d.prom
            /\ o.ev.a.rcf = (IF SSDecided(d) THEN d.ss ELSE 0)
            /\ ("rd" \in DOMAIN o.ev /\ LogLen(d) > 0) => ReadOK(o.ev.rd, ExpRead(d, 0, LogLen(d)))
  /\ o.relead = {}

(* C09 Leader election *)
C09(o) ==
  /\ o.relead = {}
  /\ EndOfCall(o) =>
       LET i == o.ev.i IN
       /\ \A k \in 1..Len(o.ev.out) :
            LET m == o.ev.out[k] IN
            /\ m.from = o.cfg.pids[i]
            /\ \E j \in N(o) : m.to = o.cfg.pids[j]
            /\ LeaderMsg(m) => m.n[3] = o.cfg.pids[i]
            \* a heartbeat names the own ballot and a leader of this configuration
            /\ m.t = "HbRep" =>
                 /\ m.b[3] = o.cfg.pids[i]
                 /\ m.l[3] = 0 \/ \E j \in N(o) : m.l[3] = o.cfg.pids[j]
       /\ (o.ev.up /\ ~o.ev.d.bad) =>
            /\ o.ev.a.lead = o.ev.d.prom[3]
            /\ o.ev.a.lacc => o.ev.d.acc = o.ev.d.prom
       \* who stands for election heard from a read quorum in the last round of heartbeats
       /\ (o.ev.k = "T" /\ o.ev.up /\ ~o.ev.d.bad) =>
            LET c == o.ev.a.ui.cb
                q == o.hbn[i].prv
            IN (o.ev.was.ui.cb[1] < c[1] /\ c # o.ev.before.prom) =>
                 Cardinality({q[k].b[3] : k \in 1..Len(q)}) + 1 >= o.cfg.rq
  /\ (o.ev.k = "E" /\ o.ev.x = 2) =>
       /\ \A i, j \in N(o) : o.disk[i].prom = o.disk[j].prom /\ o.api[i].lead = o.api[j].lead
       /\ \A i \in N(o) : o.up[i] /\ o.api[i].lacc
  /\ (o.ev.k = "E" /\ o.ev.x = 3 /\ o.ev.stable # <<>>) =>
       \A i \in N(o) : o.ev.stable[i] = o.disk[i].prom
  \* a server that was told to take over in a healthy cluster leads it
  /\ (o.ev.k = "E" /\ o.ev.x = 9) =>
       \A i \in N(o) : o.api[i].lead = o.cfg.pids[o.ev.s] /\ o.api[i].lacc
  /\ (o.ev.k = "E" /\ o.ev.x = 6) =>
       LET Better(a, b) == \/ o.cfg.prio[a] > o.cfg.prio[b]
                           \/ o.cfg.prio[a] = o.cfg.prio[b] /\ o.cfg.pids[a] > o.cfg.pids[b]
           best == CHOOSE a \in N(o) : \A b \in N(o) : a = b \/ Better(a, b)
       IN \A i \in N(o) : o.api[i].lead = o.cfg.pids[best] /\ o.api[i].lacc

(* C08 Progress: after healing everybody has decided the same, all that is *)
(* in its log, and all that was appended since (values from ev.s on)       *)
C08(o) ==
  (o.ev.k = "E" /\ o.ev.x = 1) =>
     /\ \A i \in N(o) : o.disk[i].dec = Len(o.chosen) /\ Len(o.full[i]) = Len(o.chosen)
     /\ (~Stopped(o) /\ o.ev.s > 0) =>
          \A v \in DOMAIN o.props :
            (v >= o.ev.s /\ ~IsSS(v) /\ o.props[v].ok) => v \in ChosenSet(o)

(* C10 Reads *)
C10(o) ==
  /\ (o.ev.k \in {"Q", "Q1"} /\ o.ev.up /\ ~o.ev.d.bad) =>
       LET d == o.ev.before IN
       /\ o.ev.f < o.ev.t => ReadOK(o.ev.ret, ExpRead(d, o.ev.f, o.ev.t))
       /\ SameDisk(d, o.ev.d)
  /\ (o.ev.k = "QD" /\ o.ev.up /\ ~o.ev.d.bad) =>
       LET d == o.ev.before IN
       /\ ReadOK(o.ev.ret, IF o.ev.f < d.dec THEN ExpRead(d, o.ev.f, d.dec) ELSE [r |-> "none"])
       /\ SameDisk(d, o.ev.d)

(* C11 Trim.  In trimming clusters (cfg.snap FALSE) *)
Cmps(o) == {o.disk[i].cmp : i \in N(o)}
MaxCmp(o) == CHOOSE m \in Cmps(o) : \A x \in Cmps(o) : x <= m
C11(o) ==
  /\ ~o.cfg.snap => \A i \in N(o) : Readable(o, i) =>
       o.disk[i].cmp = o.mcmp[i] /\ o.disk[i].cmp <= o.disk[i].dec
  /\ (~o.cfg.snap /\ \A i \in N(o) : Readable(o, i)) =>
       LET m == MaxCmp(o) IN
       \A j \in N(o) : Len(o.full[j]) >= m /\ Consistent(Take(o.full[j], m), o.chosen)
  /\ (o.ev.k = "M" /\ o.ev.up) =>
       LET b == o.ev.before
           d == o.ev.d
           me == o.cfg.pids[o.ev.i]
       IN IF o.ev.ret.r = "ok"
          THEN /\ b.prom[3] = me
               /\ o.ev.x >= 0 =>
                    d.cmp = Max(b.cmp, IF o.ev.x = b.dec THEN LogDec(b) ELSE o.ev.x)
          ELSE /\ SameDisk(b, d)
               /\ b.prom[3] # me => o.ev.ret.r = "nl"
               /\ o.ev.ret.r = "nl" => o.ev.ret.v = b.prom[3]
               \* some server may not have that much: the answer is what all of them have
               /\ o.ev.ret.r = "na" => /\ o.ev.x >= 0 => o.ev.ret.v < o.ev.x
                                       /\ \A j \in N(o) : o.ev.ret.v <= Len(o.full[j])
               /\ o.ev.ret.r = "ud" => o.ev.ret.v = b.dec
  /\ (o.ev.k = "E" /\ o.ev.x = 7 /\ ~Stopped(o)) =>
       LET all == o.ev.mindec
           want == IF o.ev.creq = -2 \/ o.ev.creq > o.ev.mindec THEN 0
                   ELSE IF o.ev.creq = -1 THEN all ELSE Min(o.ev.creq, all)
       IN \A i \in N(o) : o.disk[i].cmp >= want

(* C12 Snapshots *)
C12(o) ==
  /\ o.cfg.snap => \A i \in N(o) : Readable(o, i) =>
       LET d == o.disk[i] IN
       /\ IF d.hs THEN Len(d.snap) = d.cmp ELSE d.cmp = 0
       /\ Prefix(Pad(d.snap, d.cmp), o.chosen)
       /\ d.cmp = o.mcmp[i] /\ d.cmp <= d.dec
  /\ (o.ev.k = "S" /\ o.ev.up) =>
       LET b == o.ev.before
           d == o.ev.d
           want == IF o.ev.x = -1 \/ o.ev.x = b.dec THEN LogDec(b) ELSE o.ev.x
       IN IF o.ev.x > b.dec
          THEN o.ev.ret = [r |-> "ud", v |-> b.dec] /\ SameDisk(b, d)
          ELSE o.ev.ret.r = "ok" /\ d.cmp = Max(b.cmp, want)
  /\ (o.ev.k = "E" /\ o.ev.x = 8) =>
       LET all == o.ev.mindec - (IF Stopped(o) THEN 1 ELSE 0)
           want == IF o.ev.creq = -2 \/ o.ev.creq > o.ev.mindec THEN 0
                   ELSE IF o.ev.creq = -1 THEN all ELSE Min(o.ev.creq, all)
       IN \A i \in N(o) : o.disk[i].cmp >= want

(* C13 Reconfiguration *)
C13(o) ==
  /\ \A k \in 1..Len(o.chosen) : IsSS(o.chosen[k]) => k = Len(o.chosen)
  /\ \A i \in N(o) : o.up[i] /\ Readable(o, i) /\ EndOfCall(o) /\ o.ev.i = i =>
       o.ev.a.rcf = (IF SSDecided(o.ev.d) THEN o.ev.d.ss ELSE 0)
  /\ (o.ev.k \in {"A", "G"} /\ o.ev.up) =>
       IF o.ev.before.ss = 0 THEN o.ev.ret.r = "ok"
       ELSE o.ev.ret = [r |-> IF o.ev.k = "A" THEN "pe" ELSE "pc", v |-> o.ev.v]
  \* without faults and under one leader, a reconfiguration that was not refused is carried out
  /\ (o.ev.k = "E" /\ o.ev.x = 4 /\ ~o.faulty /\ Cardinality(DOMAIN o.led) = 1 /\ ~Stopped(o)) =>
       \A v \in DOMAIN o.props : ~(IsSS(v) /\ o.props[v].ok)

(* C14 Batching and forwarding: messages that wait in the caller's buffer  *)
(* stay there when it takes more (ev.kb); and in fault-free runs under one *)
(* leader nothing is lost and the order is kept                            *)
C14(o) ==
  \* a batch is written as soon as it is full
  /\ EndOfCall(o) => o.wait[o.ev.i] < o.cfg.batch[o.ev.i]
  /\ (EndOfCall(o) /\ "kb" \in DOMAIN o.ev) => o.ev.kb
  /\ (o.ev.k = "E" /\ o.ev.x = 4 /\ ~o.faulty /\ Cardinality(DOMAIN o.led) = 1 /\ ~Stopped(o)) =>
     /\ \A v \in DOMAIN o.props : (~IsSS(v) /\ o.props[v].ok) => v \in ChosenSet(o)
     /\ \A a, b \in 1..Len(o.chosen) :
          LET x == o.chosen[a]
              y == o.chosen[b]
          IN (a < b /\ x \in DOMAIN o.props /\ y \in DOMAIN o.props) =>
              ((o.props[x].node = o.props[y].node /\ o.props[x].lead /\ o.props[y].lead
                /\ ~IsSS(x) /\ ~IsSS(y)) => x < y)

(* C15 (as far as the cluster runs show it): the storage reads back *)
C15(o) == \A i \in N(o) : Readable(o, i)

(* C18 No panics *)
C18(o) == EndOfCall(o) => ~o.ev.pan

(* C20 A message arrives as it was sent, also if it is serialized on the way *)
C20(o) == o.ev.k = "D" => o.ev.w

(* C21 Status reports: the view for the user interface agrees with the     *)
(* other observers; it lists the heartbeats of the last round; what a      *)
(* leader shows as accepted by a server is durable there, and not behind   *)
(* what that server has acknowledged                                       *)
SameItems(a, b) == Len(a) = Len(b) /\ {a[k] : k \in 1..Len(a)} = {b[k] : k \in 1..Len(b)}
Leads(o, i, a) == a.lead = o.cfg.pids[i] /\ a.lacc
C21(o) ==
  (EndOfCall(o) /\ o.ev.up /\ ~o.ev.d.bad) =>
     LET i == o.ev.i
         a == o.ev.a
         u == a.ui
         r == o.ev.d.prom
         Held(j) == IF r \in DOMAIN o.alen[j] THEN o.alen[j][r] ELSE 0
     IN /\ u.dec = a.dec /\ u.lead = a.lead
        /\ u.cb[3] = o.cfg.pids[i]
        /\ SameItems(u.hb, o.hbn[i].prv)
        /\ Leads(o, i, a) =>
             /\ \A j \in N(o) : u.ai[j] <= Held(j)
             /\ u.ai[i] = LogLen(o.ev.d)
             /\ (o.ev.k = "D" /\ o.ev.in.t = "Accepted" /\ o.ev.in.n = r /\ Leads(o, i, o.ev.was)) =>
                  \A j \in N(o) : o.cfg.pids[j] = o.ev.in.from => u.ai[j] >= o.ev.in.acc

(* C16 (on executions with compressed entries): the logs are those of a cluster without *)
C16(o) == C01(o) /\ C03(o) /\ C05(o) /\ C18(o) /\ C20(o)

(* C19 Partial connectivity: something appended since (from ev.s on) got decided *)
C19(o) ==
  \* as long as connectivity does not change, leadership does not either
  /\ (o.ev.k = "E" /\ o.ev.x = 11) => \A i \in N(o) : o.disk[i].prom = o.ev.stable[i]
  /\ (o.ev.k = "E" /\ o.ev.x = 5 /\ ~Stopped(o)) =>
     \E v \in ChosenSet(o) : v \in DOMAIN o.props /\ v >= o.ev.s /\ ~IsSS(v) /\ o.props[v].ok

(* C22 Quiescence: a healthy cluster that agreed on a leader and has       *)
(* nothing to do (o.idle) sends heartbeats only and writes nothing; the    *)
(* leader of a stopped configuration may repeat that it is decided         *)
C22(o) ==
  (EndOfCall(o) /\ o.idle) =>
     /\ SameDisk(o.ev.before, o.ev.d)
     /\ \A k \in 1..Len(o.ev.out) :
          o.ev.out[k].t \in {"HbReq", "HbRep"} \union (IF Stopped(o) THEN {"Decide"} ELSE {})

=============================================================================
