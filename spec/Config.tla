------------------------------ MODULE Config -------------------------------
(***************************************************************************)
(* Which configurations a server accepts, and how many servers a decision  *)
(* takes under them (property C17).                                        *)
(*                                                                         *)
(* A configuration [id, nodes, fq, r, w, pid, ett, rtt, ftt, buf, batch]:  *)
(* fq tells whether the read and write quorum sizes r and w are given.     *)
(* BIG stands for the largest number there is.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN,   \* servers, when validating
          LN,     \* servers, when validating the sizes of quorums only
          QN      \* servers, when counting quorums

BIG == 999999
Range(s) == {s[k] : k \in 1..Len(s)}

ValidCluster(c) ==
  /\ Len(c.nodes) > 1
  /\ 0 \notin Range(c.nodes)
  /\ Cardinality(Range(c.nodes)) = Len(c.nodes)
  /\ c.id # 0
  /\ c.fq => /\ c.r \in 2..Len(c.nodes)
             /\ c.w \in 2..Len(c.nodes)
             /\ c.r + c.w > Len(c.nodes)
             /\ c.r >= c.w
ValidServer(c) == c.pid # 0 /\ c.buf # 0 /\ c.batch # 0 /\ c.ett # 0 /\ c.rtt # 0
Valid(c) == ValidCluster(c) /\ ValidServer(c) /\ c.pid \in Range(c.nodes)

ReadQuorum(c) == IF c.fq THEN c.r ELSE Len(c.nodes) \div 2 + 1
WriteQuorum(c) == IF c.fq THEN c.w ELSE Len(c.nodes) \div 2 + 1

\* The reason for all this: what was decided is seen by every later leader.
Overlap(c) ==
  \A R \in SUBSET Range(c.nodes) : \A W \in SUBSET Range(c.nodes) :
    Cardinality(R) >= ReadQuorum(c) /\ Cardinality(W) >= WriteQuorum(c) => R \cap W # {}

-----------------------------------------------------------------------------
Up(n) == [k \in 1..n |-> k]
Shapes(n) ==
  {Up(n), [k \in 1..n |-> n + 2 - k]}
    \union (IF n = 0 THEN {} ELSE
       {[Up(n) EXCEPT ![1] = 0], [Up(n) EXCEPT ![n] = 0], [Up(n) EXCEPT ![n] = 1], [Up(n) EXCEPT ![1] = n],
        [Up(n) EXCEPT ![n] = n + 3]})
    \union (IF n < 3 THEN {} ELSE {[Up(n) EXCEPT ![2] = 3], [Up(n) EXCEPT ![n - 1] = 1]})
Quorums(n) ==
  {[fq |-> FALSE, r |-> 0, w |-> 0]}
    \union {[fq |-> TRUE, r |-> r, w |-> w] : r \in 0..(n + 1) \union {BIG}, w \in 0..(n + 1) \union {BIG}}
Server(pid, x) == [pid |-> pid, ett |-> x[1], rtt |-> x[2], ftt |-> x[3], buf |-> x[4], batch |-> x[5]]
Cfg(id, nodes, q, s) ==
  [id |-> id, nodes |-> nodes, fq |-> q.fq, r |-> q.r, w |-> q.w,
   pid |-> s.pid, ett |-> s.ett, rtt |-> s.rtt, ftt |-> s.ftt, buf |-> s.buf, batch |-> s.batch]

\* everything about the cluster, and everything about the server, each with the other in order
Clusters ==
  UNION {{Cfg(id, nodes, q, Server(pid, <<5, 6, 7, 100, 1>>)) :
            id \in {0, 1, 7}, nodes \in Shapes(n), q \in Quorums(n), pid \in {0, 1, n, n + 1}} : n \in 0..MaxN}
Larger ==
  UNION {{Cfg(1, nodes, q, Server(1, <<5, 6, 7, 100, 1>>)) : nodes \in {Up(n), [Up(n) EXCEPT ![n] = 2]}, q \in Quorums(n)}
         : n \in (MaxN + 1)..LN}
Servers ==
  {Cfg(id, <<3, 1, 2>>, [fq |-> id = 1, r |-> 2, w |-> 2], Server(pid, <<a, b, c, d, e>>)) :
     id \in {1, 2}, pid \in 0..4, a \in {0, 1, BIG}, b \in {0, 1, BIG}, c \in {0, 1, 5}, d \in {0, 1, 1000}, e \in {0, 1, 9}}

(* Quorum sizes: of the servers of a valid configuration, k can talk to    *)
(* each other at first; when one of them leads, only a of them are left.   *)
Counted ==
  UNION {{[t |-> "Q", c |-> Cfg(1, Up(n), q, Server(1, <<3, 4, 2, 100, b>>)), k |-> k, a |-> a] :
            q \in {x \in Quorums(n) : ValidCluster(Cfg(1, Up(n), x, Server(1, <<1, 1, 1, 1, 1>>)))},
            k \in 1..n, a \in 1..n, b \in {1, 2}} : n \in 2..QN}

VARIABLES x, xp
vars == <<x, xp>>
Init ==
  \/ \E c \in Clusters \union Larger \union Servers :
       /\ x = [t |-> "V", c |-> c]
       /\ xp = [cluster |-> ValidCluster(c), server |-> ValidServer(c), ok |-> Valid(c)]
  \/ \E q \in Counted :
       /\ q.a <= q.k
       /\ x = q
       /\ xp = [leads |-> q.k >= ReadQuorum(q.c), decides |-> q.k >= ReadQuorum(q.c) /\ q.a >= WriteQuorum(q.c)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* (the quorum clause is about sizes only: up to 5 servers)
Inv == (x.t = "V" /\ xp.cluster /\ Len(x.c.nodes) <= 5) => Overlap(x.c)
Emitted == PrintT(<<"PATH", ToJson(x), ToJson(xp)>>)
=============================================================================
