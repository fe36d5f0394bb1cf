----------------------------- MODULE UniCache ------------------------------
(***************************************************************************)
(* The field caches of UniCache (property C16).                            *)
(*                                                                         *)
(* A cache is a sequence of slots [c, v, n] - code, value, uses - in the   *)
(* order in which they were last touched.  The leader's cache maps values  *)
(* to codes, a follower's maps codes to values; both must stay the same    *)
(* cache, because what is evicted on one side is never told to the other.  *)
(* A follower joins with a copy of the leader's cache (sent in an          *)
(* AcceptSync) and from then on decodes every message in order.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Policy,   \* "lru" or "lfu"
          Size,     \* slots
          NVals,    \* values
          MaxLen    \* encoded values per behaviour

Without(c, k) == SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, Len(c))
Touch(c, k) == Append(Without(c, k), [c[k] EXCEPT !.n = @ + 1])
Find(c, P(_)) == IF \E k \in 1..Len(c) : P(c[k]) THEN CHOOSE k \in 1..Len(c) : P(c[k]) ELSE 0
Victim(c) ==
  IF Policy = "lru" THEN 1
  ELSE CHOOSE k \in 1..Len(c) :
         /\ \A j \in 1..Len(c) : c[k].n <= c[j].n
         /\ \A j \in 1..(k - 1) : c[j].n # c[k].n
\* a value that is not in the cache takes a free slot or the victim's
Insert(c, v) ==
  IF Len(c) < Size THEN Append(c, [c |-> Len(c) + 1, v |-> v, n |-> 1])
  ELSE LET k == Victim(c) IN Append(Without(c, k), [c |-> c[k].c, v |-> v, n |-> 1])

\* <<cache afterwards, message>>
Encode(c, v) ==
  LET Is(s) == s.v = v  k == Find(c, Is)
  IN IF k > 0 THEN <<Touch(c, k), [code |-> c[k].c, v |-> 0]>>
     ELSE <<Insert(c, v), [code |-> 0, v |-> v]>>
\* <<cache afterwards, value>>
Decode(c, m) ==
  LET Is(s) == s.c = m.code  k == Find(c, Is)
  IN IF m.code = 0 THEN <<Insert(c, m.v), m.v>>
     ELSE IF k > 0 THEN <<Touch(c, k), c[k].v>>
     ELSE <<c, 0>>

VARIABLES enc,   \* the leader's cache
          dec,   \* dec[k]: the cache of a follower that joined before the k-th value
          last,  \* the values decoded last
          h      \* the values so far
vars == <<enc, dec, last, h>>

Init == enc = <<>> /\ dec = <<<<>>>> /\ last = {} /\ h = <<>>
Seen == IF h = <<>> THEN 0 ELSE CHOOSE m \in 1..Len(h) : \E k \in 1..Len(h) : h[k] = m /\ \A j \in 1..Len(h) : h[j] <= m
Next ==
  /\ Len(h) < MaxLen
  /\ \E v \in 1..NVals :
       /\ v <= Seen + 1     \* values are interchangeable
       /\ LET e == Encode(enc, v)
              d == [k \in 1..Len(dec) |-> Decode(dec[k], e[2])]
          IN /\ enc' = e[1]
             /\ dec' = Append([k \in 1..Len(dec) |-> d[k][1]], e[1])
             /\ last' = {<<v, d[k][2]>> : k \in 1..Len(dec)}
       /\ h' = Append(h, v)
Spec == Init /\ [][Next]_vars

\* every follower decodes what was encoded
Transparent == \A p \in last : p[1] = p[2]
\* because it has the same cache, whenever it joined
Mirrored == \A k \in 1..Len(dec) : dec[k] = enc
Emitted == Len(h') = MaxLen => PrintT(<<"PATH", ToJson(h')>>)
=============================================================================
