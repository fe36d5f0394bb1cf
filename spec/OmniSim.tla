------------------------------ MODULE OmniSim ------------------------------
(***************************************************************************)
(* Behaviours that end in a quiet period, for the properties that promise  *)
(* something eventually: C08 (after healing), C09 (stable leader), C14     *)
(* (fault-free run) and C19 (a stable partial topology).  Used with TLC's  *)
(* simulation mode: a random history of the cluster of OmniPaxosMC.tla     *)
(* (warm-up, then `len' arbitrary steps), then everything is healed or a   *)
(* topology is fixed, time passes in rounds (every server ticks, then all  *)
(* messages are delivered), every server appends, time passes, and the     *)
(* expectation is evaluated by the observer.                               *)
(*                                                                         *)
(* A finished behaviour is printed in the notation of the harness, which   *)
(* replays it on the real code.                                            *)
(***************************************************************************)
EXTENDS OmniPaxosMC

CONSTANTS Mode,       \* "heal", "topo" or "single"
          Lens        \* lengths of the chaotic phase

VARIABLES len,   \* chaotic steps still to do (-1: over)
          con,   \* who is connected to whom
          todo   \* what remains to be done after the chaotic phase
svars == <<nd, up, net, b, o, h, xp, len, con, todo>>

Full == [i \in Nodes |-> [j \in Nodes |-> i # j]]
AllUp == [i \in Nodes |-> TRUE]
Pairs == [k \in 1..(NServers * NServers) |->
            <<((k - 1) \div NServers) + 1, ((k - 1) % NServers) + 1>>]
Each == [i \in 1..NServers |-> i]
NUp(u) == Cardinality({i \in Nodes : u[i]})
Min10(x) == IF x > 10 THEN 10 ELSE x
R1 == 14 * Min10(Ett) + 3 * Rtt
R2 == 3 * Rtt + 4 * Ftt + 6
Rounds(k) == [t |-> "rounds", k |-> k]
AppAll == [t |-> "app", k |-> 0]
Judge(x) == [t |-> "judge", k |-> x]
Over == [t |-> "over", k |-> 0]
Publish == [t |-> "publish", k |-> 0]

SInit == /\ Init
         /\ con = Full
         /\ len \in Lens
         /\ \E k \in {0, 2 * Ett + 1} :
              todo = IF Mode = "single" THEN <<[t |-> "lead", k |-> 0]>>
                     ELSE IF k = 0 THEN <<>> ELSE <<Rounds(k)>>

-----------------------------------------------------------------------------
(* several calls in one step: S = [nd, net, o] with the servers u running and links cn *)
SCall(S, cn, k, i, y, ret, arg) ==
  LET out == StripOut(Outgoing(y))
      keep == SelectSeq(out, LAMBDA m : cn[i][Ix(Cl, m.to)])
  IN [nd |-> [S.nd EXCEPT ![i] = [Taken(Cl, y) EXCEPT !.w = <<>>]],
      net |-> Enqueue(S.net, i, keep),
      o |-> ObsEnd(ObsWrites(S.o, i, y.w), Ev(k, i, y, ret, arg))]
SDel(S, u, cn, i, j) ==
  IF i = j \/ S.net[i][j] = <<>> THEN S
  ELSE LET m == Head(S.net[i][j])
           S1 == [S EXCEPT !.net[i][j] = Tail(@)]
       IN IF ~u[j] THEN [S1 EXCEPT !.o = ObsFault(@)]
          ELSE SCall(S1, cn, "D", j, Handle(Cl, S.nd[j], m), NoRet, [j |-> i, in |-> m])
Sweep(S, u, cn) == FoldLeft(LAMBDA s, p : SDel(s, u, cn, p[1], p[2]), S, Pairs)
TickAll(S, u, cn) ==
  FoldLeft(LAMBDA s, i : IF u[i] THEN SCall(s, cn, "T", i, Tick(Cl, s.nd[i]), NoRet, NoArg) ELSE s, S, Each)
Silent == \A i, j \in Nodes : net[i][j] = <<>>
SAppAll(S, u, cn, from) ==
  FoldLeft(LAMBDA s, i :
             IF ~u[i] THEN s
             ELSE LET v == from + Cardinality({j \in 1..i : u[j]})
                      q == AppendCall(Cl, s.nd[i], v)
                  IN SCall(s, cn, "A", i, q[1], q[2], [v |-> v]),
           S, Each)
RestartAll(S, u, cn) ==
  FoldLeft(LAMBDA s, i : IF u[i] THEN s
                         ELSE SCall(s, cn, "U", i, Start(Cl, i, s.nd[i].d, FALSE), NoRet, NoArg),
           S, Each)
\* sessions are signalled at both ends of every link of cn
ReconAll(S, u, cn) ==
  FoldLeft(LAMBDA s, p :
             IF p[1] = p[2] \/ ~cn[p[1]][p[2]] \/ ~u[p[1]] THEN s
             ELSE SCall(s, cn, "R", p[1], ReconnectedCall(Cl, s.nd[p[1]], Pids[p[2]]), NoRet, [j |-> p[2]]),
           S, Pairs)
ReconOps(u, cn) ==
  LET q == SelectSeq(Pairs, LAMBDA p : p[1] # p[2] /\ cn[p[1]][p[2]] /\ u[p[1]])
  IN [k \in 1..Len(q) |-> Op2("R", q[k][1], q[k][2])]

Now == [nd |-> nd, net |-> net, o |-> o]
Become(S) == nd' = S.nd /\ net' = S.net /\ o' = S.o

-----------------------------------------------------------------------------
Chaos ==
  /\ todo = <<>> /\ len > 0
  /\ Next
  /\ len' = len - 1
  /\ UNCHANGED <<con, todo>>

Heal ==
  /\ Mode # "topo" /\ todo = <<>> /\ len = 0
  /\ \E sig \in BOOLEAN :
       LET S1 == RestartAll(Now, up, Full)
       IN IF Mode = "single" THEN Become(Now) /\ Did(<<>>, NoExp)
          ELSE IF sig THEN Become(ReconAll(S1, AllUp, Full)) /\ Did(<<"HQ">> \o ReconOps(AllUp, Full), NoExp)
          ELSE Become(S1) /\ Did(<<"HQ">>, NoExp)
  /\ todo' = IF Mode = "single"
             THEN <<Rounds(R2), AppAll, Rounds(R2), AppAll, Rounds(R2), Judge(4), Judge(1), Publish>>
             ELSE <<Rounds(R1), AppAll, Rounds(R2), AppAll, Rounds(R2), Judge(4), Judge(1), Judge(2),
                    Rounds(6 * Min10(Ett)), Judge(3), Over, Publish>>
  /\ up' = AllUp
  /\ len' = -1
  /\ b' = [b EXCEPT !.tick = IF Mode = "single" THEN 0 ELSE b.app + 1]  \* first value appended since
  /\ UNCHANGED con

\* the topologies with a server that reaches a read and a write quorum of running servers
QC(cn, u) ==
  \E c \in Nodes : u[c] /\ Cardinality({j \in Nodes : u[j] /\ (j = c \/ cn[c][j])}) >= Max(RQ, WQ)
Links == {p \in Nodes \X Nodes : p[1] < p[2]}
FixTopo ==
  /\ Mode = "topo" /\ todo = <<>> /\ len = 0
  /\ \E T \in SUBSET Links, D \in SUBSET Nodes :
       LET cn == [i \in Nodes |-> [j \in Nodes |-> i # j /\ <<Min(i, j), Max(i, j)>> \in T]]
           u  == [i \in Nodes |-> i \notin D]
           S0 == RestartAll(Now, up, Full)
           \* servers in D go down, links not in T are cut: what is in flight there is lost
           S1 == [S0 EXCEPT !.net = [i \in Nodes |-> [j \in Nodes |->
                                       IF i # j /\ cn[i][j] /\ u[i] /\ u[j] THEN S0.net[i][j] ELSE <<>>]],
                            !.o = FoldLeft(LAMBDA z, i : IF u[i] THEN z ELSE ObsDown(z, i), S0.o, Each)]
           q  == SelectSeq(Pairs, LAMBDA p : p[1] < p[2] /\ ~cn[p[1]][p[2]])
           dn == SelectSeq(Each, LAMBDA i : ~u[i])
       IN /\ QC(cn, u)
          /\ Become(ReconAll(S1, u, cn))
          /\ con' = cn /\ up' = u
          /\ Did(<<"HQ">> \o [k \in 1..Len(dn) |-> Op1("B", dn[k]) \o " 1"]
                 \o [k \in 1..Len(q) |-> Op2("C", q[k][1], q[k][2])]
                 \o ReconOps(u, cn), NoExp)
  /\ todo' = <<Rounds(2 * R1), AppAll, Rounds(R2), AppAll, Rounds(R2), Judge(5), Judge(10), Rounds(10 * Min10(Ett)), Judge(11), Publish>>
  /\ len' = -1
  /\ b' = [b EXCEPT !.tick = b.app + 1]

Keep == UNCHANGED <<up, len, con>>
Do ==
  /\ todo # <<>>
  /\ LET t == Head(todo)
         rest == Tail(todo)
     IN CASE t.t = "lead" ->
               /\ \E i \in Nodes : Lead(i)
               /\ todo' = rest /\ UNCHANGED <<len, con>>
          [] t.t = "rounds" ->
               /\ Did(<<"N " \o ToString(t.k)>>, NoExp)
               /\ todo' = <<[t |-> "round", k |-> t.k]>> \o rest
               /\ UNCHANGED <<nd, net, o, b>> /\ Keep
          [] t.t = "round" ->
               /\ IF t.k = 0 THEN UNCHANGED <<nd, net, o>> /\ todo' = rest
                  ELSE /\ Become(TickAll(Now, up, con))
                       /\ todo' = <<[t |-> "sweep", k |-> 2000], [t |-> "round", k |-> t.k - 1]>> \o rest
               /\ UNCHANGED <<h, xp, b>> /\ Keep
          [] t.t = "sweep" ->
               /\ IF Silent \/ t.k = 0 THEN UNCHANGED <<nd, net, o>> /\ todo' = rest
                  ELSE /\ Become(Sweep(Now, up, con))
                       /\ todo' = <<[t |-> "sweep", k |-> t.k - 1]>> \o rest
               /\ UNCHANGED <<h, xp, b>> /\ Keep
          [] t.t = "app" ->
               /\ Become(SAppAll(Now, up, con, b.app))
               /\ b' = [b EXCEPT !.app = @ + NUp(up)]
               /\ Did(<<"AA">>, NoExp)
               /\ todo' = rest /\ Keep
          [] t.t = "judge" ->
               /\ o' = ObsExpect(o, t.k, b.tick)
               /\ Did(<<"E " \o ToString(t.k)>>, NoExp)
               /\ todo' = rest /\ UNCHANGED <<nd, net, b>> /\ Keep
          [] t.t = "over" ->   \* a server is told to take over, and leads when all messages arrived
               /\ \E i \in Nodes :
                    /\ Become(SCall(Now, con, "L", i, BecomeLeaderCall(Cl, nd[i]), NoRet, NoArg))
                    /\ Did(<<Op1("LX", i)>>, NoExp)
                    /\ todo' = <<[t |-> "sweep", k |-> 2000], [t |-> "leads", k |-> i]>> \o rest
               /\ UNCHANGED b /\ Keep
          [] t.t = "leads" ->
               /\ o' = ObsExpect(o, 9, t.k)
               /\ todo' = rest /\ UNCHANGED <<nd, net, b, h, xp>> /\ Keep
          [] OTHER ->  \* the complete behaviour is published for the replay on the real code
               /\ PrintT(<<"SCHED", ToJson(h)>>)
               /\ todo' = rest /\ UNCHANGED <<nd, net, o, b, h, xp>> /\ Keep

SNext == Chaos \/ Heal \/ FixTopo \/ Do
SSpec == SInit /\ [][SNext]_svars

sC01 == C01(o)
sC02 == C02(o)
sC03 == C03(o)
sC04 == C04(o)
sC05 == C05(o)
sC06 == C06(o)
sC07 == C07(o)
sC08 == C08(o)
sC09 == C09(o)
sC10 == C10(o)
sC11 == C11(o)
sC12 == C12(o)
sC13 == C13(o)
sC21 == C21(o)
sC14 == C14(o)
sC18 == TRUE
sC19 == C19(o)
sC22 == C22(o)
=============================================================================
