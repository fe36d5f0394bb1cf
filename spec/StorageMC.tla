----------------------------- MODULE StorageMC -----------------------------
(* All states of the storage contract within the bounds; every transition  *)
(* is printed with a shortest path to it and what must be read afterwards. *)
EXTENDS Storage, Json

CONSTANTS MaxIdx, Vals, Bals, Decs, WithFail

VARIABLES s, h, xp

Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
C(ops) == [t |-> "C", ops |-> ops]
G(ops) == [t |-> "G", ops |-> ops]

Appends ==
  UNION {{<<AE(x)>> : x \in Vals},
         {<<AS(v)>> : v \in Seqs(2)},
         {<<AP(i, v)>> : i \in s.tr..End(s), v \in Seqs(2)}}
Sets == UNION {{<<SP(x)>> : x \in Bals}, {<<SA(x)>> : x \in Bals}, {<<SD(x)>> : x \in Decs},
               {<<SS(x)>> : x \in {0, 1}}}
Compacts == UNION {{<<TR(i), SC(i)>>, <<SC(i), TR(i)>>} : i \in s.tr..End(s)}
SnapCompacts == {<<TR(i), SC(i), SN(1)>> : i \in s.tr..End(s)}
Mixed ==
  UNION {{<<AS(v), AP(i, <<2>>)>>, <<AP(i, v), AE(1)>>, <<AP(i, v), SS(1)>>} : i \in s.tr..End(s), v \in Seqs(1)}
Syncs ==
  LET b == CHOOSE x \in Bals : TRUE
      d == CHOOSE x \in Decs : x # 0
  IN UNION {
       {<<SA(b), SD(d), AP(i, v), SS(x)>> : i \in s.tr..End(s), v \in Seqs(1), x \in {0, 1}},
       {<<SA(b), SD(d), TR(i), SC(i), SN(1), AP(i, v), SS(x)>> : i \in s.tr..MaxIdx, v \in Seqs(1), x \in {0, 1}}}
Fails ==
  IF ~WithFail THEN {}
  ELSE {C(<<AE(POISON)>>), C(<<AS(<<1, POISON>>)>>), C(<<AP(s.tr, <<1, POISON>>)>>),
        G(<<AE(1), SD(1), AE(POISON)>>), G(<<SP(1), AS(<<2, POISON>>)>>), G(<<TR(End(s)), SC(End(s)), AP(End(s), <<POISON>>)>>)}
Steps ==
  UNION {{C(o) : o \in Appends \union Sets \union Compacts},
         {G(o) : o \in Appends \union Sets \union Compacts \union SnapCompacts \union Mixed \union Syncs},
         Fails, {[t |-> "R", ops |-> <<>>], [t |-> "K", ops |-> <<>>]}}

Init == s = Empty /\ h = <<>> /\ xp = <<>>
Next ==
  \E st \in Steps :
    /\ Legal(s, st)
    /\ LET s1 == After(s, st) IN
       /\ End(s1) <= MaxIdx
       /\ s' = s1
       /\ h' = Append(h, st)
       /\ xp' = [ret |-> Result(st), obs |-> Obs(s1, 0, MaxIdx + 1)]
Spec == Init /\ [][Next]_<<s, h, xp>>
View == s
Emitted == PrintT(<<"PATH", ToJson(h'), ToJson(xp')>>)

(* The contract itself: what is written is read back, an index reads as    *)
(* the last entry written there, trimming hides nothing above it.          *)
Inv ==
  /\ s.tr = s.cmp
  /\ Len(Suffix(s, s.tr)) = Len(s.log)
  /\ \A f, t \in 0..MaxIdx : Len(Entries(s, f, t)) \in {0, t - f}
  /\ \A f \in s.tr..End(s) : \A t \in f..End(s) : Entries(s, f, t) \o Entries(s, t, End(s)) = Suffix(s, f)
=============================================================================
