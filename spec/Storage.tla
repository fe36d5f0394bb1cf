------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* The storage contract (property C15): what a back-end of the library has *)
(* to return for every sequence of operations.                             *)
(*                                                                         *)
(* State s:                                                                *)
(*   prom, acc   promised / accepted round, 0 = never set                  *)
(*   dec, cmp    decided / compacted index                                 *)
(*   ss, sn      stop sign and snapshot, 0 = none                          *)
(*   tr, log     the entries with indexes tr, tr + 1, ..                   *)
(*                                                                         *)
(* A step is [t, ops]: "C" calls the operations one by one, "G" writes     *)
(* them as one group (write_atomically), "R" closes and opens the storage, *)
(* "K" opens it as a killed process leaves it.                             *)
(* POISON stands for an entry that the back-end fails to store; the step   *)
(* then reports the error and nothing of it takes effect.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

POISON == 99

Empty == [prom |-> 0, acc |-> 0, dec |-> 0, cmp |-> 0, ss |-> 0, sn |-> 0, tr |-> 0, log |-> <<>>]

Op(k, i, v) == [k |-> k, i |-> i, v |-> v]
AE(x)     == Op("AE", 0, <<x>>)      \* append_entry
AS(v)     == Op("AS", 0, v)          \* append_entries
AP(i, v)  == Op("AP", i, v)          \* append_on_prefix
SP(b)     == Op("SP", b, <<>>)       \* set_promise
SA(b)     == Op("SA", b, <<>>)       \* set_accepted_round
SD(i)     == Op("SD", i, <<>>)       \* set_decided_idx
SC(i)     == Op("SC", i, <<>>)       \* set_compacted_idx
TR(i)     == Op("TR", i, <<>>)       \* trim
SS(x)     == Op("SS", x, <<>>)       \* set_stopsign
SN(x)     == Op("SN", x, <<>>)       \* set_snapshot

End(s) == s.tr + Len(s.log)
MinOf(a, b) == IF a < b THEN a ELSE b

Apply(s, op) ==
  CASE op.k \in {"AE", "AS"} -> [s EXCEPT !.log = @ \o op.v]
    [] op.k = "AP" -> [s EXCEPT !.log = SubSeq(@, 1, MinOf(op.i - s.tr, Len(@))) \o op.v]
    [] op.k = "SP" -> [s EXCEPT !.prom = op.i]
    [] op.k = "SA" -> [s EXCEPT !.acc = op.i]
    [] op.k = "SD" -> [s EXCEPT !.dec = op.i]
    [] op.k = "SC" -> [s EXCEPT !.cmp = op.i]
    [] op.k = "SS" -> [s EXCEPT !.ss = op.i]
    [] op.k = "SN" -> [s EXCEPT !.sn = op.i]
    [] op.k = "TR" -> [s EXCEPT !.log = SubSeq(@, MinOf(op.i - s.tr, Len(@)) + 1, Len(@)), !.tr = op.i]

RECURSIVE ApplyAll(_, _)
ApplyAll(s, ops) == IF ops = <<>> THEN s ELSE ApplyAll(Apply(s, Head(ops)), Tail(ops))

Poisoned(st) == \E k \in 1..Len(st.ops) : \E x \in 1..Len(st.ops[k].v) : st.ops[k].v[x] = POISON
After(s, st) == IF st.t \in {"R", "K"} \/ Poisoned(st) THEN s ELSE ApplyAll(s, st.ops)
Result(st) == IF Poisoned(st) THEN "err" ELSE "ok"

(* What the library may ask for: appending on a prefix that exists, trimming forward, and trimming *)
(* always together with setting the compacted index.                                               *)
RECURSIVE LegalOps(_, _)
LegalOps(s, ops) ==
  IF ops = <<>> THEN s.tr = s.cmp
  ELSE LET op == Head(ops) IN
       /\ CASE op.k = "AP" -> s.tr <= op.i /\ op.i <= End(s)
            [] op.k = "TR" -> s.tr <= op.i
            [] OTHER -> TRUE
       /\ LegalOps(Apply(s, op), Tail(ops))
Legal(s, st) == st.t \in {"R", "K"} \/ LegalOps(s, st.ops)

(* Reads.  An interval of which some entry does not exist reads as empty. *)
Entries(s, f, t) ==
  IF f >= t \/ f < s.tr \/ t > End(s) THEN <<>> ELSE SubSeq(s.log, f - s.tr + 1, t - s.tr)
Suffix(s, f) == Entries(s, f, End(s))

\* everything that can be read from s, with indexes lo..hi
Obs(s, lo, hi) ==
  [prom |-> s.prom, acc |-> s.acc, dec |-> s.dec, cmp |-> s.cmp, ss |-> s.ss, sn |-> s.sn,
   len |-> Len(s.log),
   suf |-> [f \in 1..(hi - lo + 1) |-> Suffix(s, lo + f - 1)],
   ent |-> [f \in 1..(hi - lo + 1) |-> [t \in 1..(hi - lo + 1) |-> Entries(s, lo + f - 1, lo + t - 1)]]]
=============================================================================
