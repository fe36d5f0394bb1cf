#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json
P=[]
SP="omnipaxos/src/sequence_paxos/"
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=False):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,meaning=x,where=files[0]) for x in state],mechanism=[dict(name=x,where=files[0]) for x in mech],observe_at=obs,hook_needed=None)))
NET="links are FIFO and may lose messages; messages are not duplicated or reordered on a link"
p("C01","Agreement: all servers decide the same log",
 "If two servers, at any times and across restarts, both report an entry as decided at the same log position, the two entries are equal; so the decided logs of any two servers are always one a prefix of the other. Compacting a prefix (trimming or snapshotting) never makes a server's decided log disagree with what was decided.",
 ["schedules","crash_points","histories","configurations","fault_sequences"],
 "every interleaving of ticks, message deliveries/losses, appends, compactions, reconfigurations, leader changes, partitions and crashes at any storage write, for clusters of 2 to 5 servers with majority and flexible quorums; "+NET,
 "The consensus tests run a handful of fault-free schedules with timing left to threads; disagreement needs a specific loss, leader change or crash placed between two messages.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/util.rs","omnipaxos/src/storage/internal_storage.rs"],
 ["durable log","decided index","accepted round","leader's promise bookkeeping"],
 ["prepare phase adopts the log of the highest accepted round","log synchronisation cuts at the common prefix","write quorum before deciding"],
 ["durable state after every storage write","read_entries","read_decided_suffix"])
p("C02","Decided entries are stable and the decided index never goes back",
 "The decided index a server reports (and stores) never decreases, not even over a crash and restart, and never exceeds the log it holds. An entry a server has once decided is never replaced, removed or moved in that server's log, other than by being covered by a trim or a snapshot that contains it.",
 ["schedules","crash_points","histories","fault_sequences"],
 "every schedule as in C01, observed at every durable state the server passes through, including those in the middle of a call",
 "Tests look at the decided log at the end of a run; a decided index that goes back for a moment, or after a crash between two writes, is not sampled.",
 [SP+"follower.rs",SP+"leader.rs","omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/omni_paxos.rs"],
 ["decided index","durable log","compacted index"],["only forward updates of the decided index","sync never cuts below the decided index"],
 ["get_decided_idx","durable state after every storage write"])
p("C03","Validity: only proposed entries are decided, each at most once",
 "Every decided entry was handed to an append (or, for a stop sign, a reconfigure) call of some server which did not refuse it, and its content is unchanged. One append call leads to at most one decided log position.",
 ["schedules","crash_points","inputs","histories","fault_sequences"],
 "every schedule as in C01, with proposals made at any server (leader, follower, server without leader), forwarded, buffered and batched; "+NET,
 "Duplicated or invented entries appear only if a proposal is both buffered and forwarded, resent after a resync, or flushed twice around a leader change; the tests propose once under a stable leader.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/storage/state_cache.rs"],
 ["buffered proposals","batched entries","outgoing messages"],["forwarding","batching","sequence numbers of accept messages"],
 ["durable log","append/reconfigure results"])
p("C04","Decided entries are durable on a write quorum",
 "Whenever any server reports or announces an entry as decided, at least a write quorum of the configured servers hold that entry at that position in their durable logs (or in their compacted prefix), accepted in the round that decided it or a later one, and this stays true from then on.",
 ["schedules","crash_points","configurations","fault_sequences"],
 "every schedule as in C01, for majority quorums and every admissible pair of read/write quorum sizes; counted over durable state only, at every storage write of every server",
 "Tests never count the copies at the moment of the decision; a decision taken one acknowledgement too early is invisible unless a further crash happens.",
 [SP+"leader.rs","omnipaxos/src/util.rs","omnipaxos/src/storage/internal_storage.rs"],
 ["acknowledged index per server","quorum sizes","durable logs"],["decide only on a write quorum of acknowledgements"],
 ["durable state of all servers","decide/accept messages"])
p("C05","Rounds: promises are kept, one log per round",
 "A server's promised round and accepted round never decrease, also over restarts, the accepted round never exceeds the promised one, and a server that has promised a round ignores every leader message of a lower round. All servers that accepted in the same round hold logs of which one is a prefix of the other.",
 ["schedules","crash_points","histories","fault_sequences"],
 "every schedule as in C01, with competing leaders, outdated leaders, and messages of old rounds arriving arbitrarily late",
 "Needs at least two leaders alive at once and late messages of the first one; tests kill leaders cleanly and wait.",
 [SP+"follower.rs",SP+"leader.rs",SP+"mod.rs","omnipaxos/src/storage/internal_storage.rs"],
 ["promised round","accepted round","log per round"],["ballot checks","sequence numbers per session","prepare/promise"],
 ["get_promise","durable state after every storage write","message contents"])
p("C06","Durable before claimed: messages and reports never run ahead of storage",
 "When a message that promises a round, acknowledges entries, describes the sender's log, leads a round or announces a decided index leaves a server, what it claims has already been written to that server's storage, and the entries, snapshots and stop signs it carries are exactly those stored there. The decided index, compacted index and promised round reported by the API equal those in storage.",
 ["schedules","crash_points","configurations"],
 "every schedule as in C01, every outgoing message, with batching on and off and with outgoing messages collected immediately or late",
 "An acknowledgement that precedes the write is only harmful if the server crashes in between, which no test arranges.",
 [SP+"follower.rs",SP+"leader.rs","omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/storage/state_cache.rs"],
 ["cached state","durable state","batched entries","outgoing messages"],["write-through cache","batch flush before acknowledging"],
 ["outgoing messages","get_decided_idx","get_compacted_idx","get_promise"])
p("C07","A server can crash at any storage write and recover",
 "After a crash at any point, including between any two storage writes of a call, the stored state is self-consistent (decided index within the stored log, compacted prefix decided, accepted round not above the promise) and a server built on it starts without error and with exactly that state, which is what its API reports and its reads return. After a restart it rejoins with its promises intact and never leads again in a round it led before the crash.",
 ["crash_points","schedules","histories"],
 "every storage write of every call, in leader and follower roles and during log synchronisation, compaction and batch flushing; including a write that fails without effect",
 "Crash tests restart a server only between calls; the states between two writes of a call are never used for recovery.",
 ["omnipaxos/src/storage/internal_storage.rs",SP+"mod.rs","omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs"],
 ["durable state","restored cache","restored ballot"],["atomic multi-writes","write order","recovery phase"],
 ["durable state after every storage write","restart"])
p("C08","Progress: after faults stop, everybody catches up and appends get decided",
 "Once all servers are running and all links deliver again, every server ends up with the same decided log within a bounded number of ticks after new entries are appended, and every entry appended without error from then on, as well as all that is in the log of the leader (a pending reconfiguration included), is decided, unless the configuration has been stopped. This holds whether or not the application signals the re-established sessions, for every history of losses, partitions and crashes before.",
 ["schedules","fault_sequences","histories","crash_points","configurations"],
 "every fault history as in C01 followed by a fault-free period with ticks and deliveries",
 "Stuck states need a particular lost message in a particular phase; tests cover a few reconnect scenarios with fixed timing.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs"],
 ["roles and phases","cached promise","buffered proposals","session sequence numbers"],["resend timers","prepare requests","session numbers detecting losses"],
 ["decided index of all servers after a quiet period"])
p("C09","Leader election: unique, increasing and stable leaders",
 "Every round has a single leader (the server whose id the round carries), and each newly elected round is higher than any round the server has promised. A server stands for election only if a read quorum answered its last heartbeat (or it was told to). In a healthy, fully connected cluster all servers agree on one leader, keep it while nothing fails, and in a fresh cluster it is the server with the highest priority (ties: highest id); the leader the API reports is the one of the promised round. A server of such a cluster that is told to become the leader does take over, everywhere. Heartbeats of servers of another configuration are ignored: a server announces its own ballot and a leader of its own configuration.",
 ["schedules","configurations","fault_sequences","inputs"],
 "every schedule as in C01, priorities set at start or at run time, ids in any order, any configuration id, heartbeat replies of older and newer configurations arriving at any time; stability judged in fault-free periods with all messages delivered between ticks (election timeout of at least three ticks for the priority clause)",
 "Tests check that some leader emerges; uniqueness and stability quantify over all interleavings of heartbeats.",
 ["omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs",SP+"leader.rs"],
 ["ballots","heartbeat replies","promised round"],["heartbeat rounds","ballot order (number, priority, id)","happiness"],
 ["get_current_leader","get_promise","leader messages"])
p("C10","Reads return exactly the log",
 "Reading an index or range returns, for every position, the entry that the server holds there with its decided/undecided status, a marker for a trimmed prefix, the snapshot for a snapshotted prefix, and the stop sign with its status at the end; reading the decided suffix returns exactly the decided part. Ranges outside the log return nothing, every way to write a range (bounded or unbounded, inclusive or exclusive) means the same, and no read fails or changes state.",
 ["inputs","histories","schedules"],
 "every (from, to) in and around the log up to the largest index, in all forms of range bounds, on logs with decided and undecided entries, trimmed or snapshotted prefixes and stop signs, reached by arbitrary schedules",
 "Tests read a few ranges on hand-made logs; boundary combinations of compaction, stop sign and decided index are many.",
 ["omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/omni_paxos.rs",SP+"mod.rs"],
 ["log","compacted index","decided index","stop sign"],["index classification"],
 ["read","read_entries","read_decided_suffix"])
p("C11","Trim only removes what every server holds",
 "A trim is performed only by the leader, and only up to an index at which every server of the configuration holds the decided entries; otherwise it is refused with the matching error (which names the leader, or an index up to which every server holds the log) and changes nothing. A successful trim removes exactly the requested prefix (or, without an index, all that qualifies), is carried out at all servers, and remaining entries keep their indices.",
 ["schedules","inputs","configurations","fault_sequences"],
 "every trim index, at leader and followers, at any time in any schedule as in C01 (without snapshots), any server ids",
 "Tests trim once after everybody decided; a follower that is behind, not yet synced, or missed messages is not covered.",
 [SP+"mod.rs",SP+"leader.rs","omnipaxos/src/util.rs","omnipaxos/src/storage/internal_storage.rs"],
 ["acknowledged index per server","compacted index"],["minimum over all servers"],
 ["trim results","get_compacted_idx","durable logs"])
p("C12","Snapshots stand for exactly the decided prefix",
 "The snapshot a server stores always is the one obtained by applying exactly the decided entries before its compacted index, once each and in order, whether it was created locally, on request of another server, or received (complete or as a delta) during synchronisation. Snapshot requests beyond the decided index are refused without effect; accepted ones compact up to the requested index.",
 ["schedules","inputs","histories","crash_points","fault_sequences"],
 "every schedule as in C01 with snapshots taken locally or cluster-wide at any index and servers synchronised by snapshot after lagging behind",
 "Tests use a snapshot type that forgets order and multiplicity (last value) and few catch-up cases; a merged-twice or missing entry stays invisible.",
 ["omnipaxos/src/storage/internal_storage.rs",SP+"mod.rs",SP+"leader.rs","omnipaxos/src/storage/mod.rs"],
 ["stored snapshot","compacted index","log"],["delta versus complete snapshot","merge into own decided log"],
 ["stored snapshot","read_entries","snapshot results"])
p("C13","Reconfiguration: the stop sign is final",
 "Once a stop sign is decided nothing is ever decided after it, all servers decide the same one with unchanged content, and it is reported as decided exactly when it is. As soon as a server's log holds a stop sign, appends and further reconfigurations at that server are refused and the refused value handed back; without one they are not refused. In a run without faults and under one leader a reconfiguration that was not refused (or another one) is carried out.",
 ["schedules","inputs","fault_sequences","crash_points"],
 "every schedule as in C01 with reconfigurations proposed at any server, concurrently and repeatedly, with and without metadata and flexible quorums",
 "Tests propose one reconfiguration under a stable leader; a stop sign that is superseded, resent or synced after a leader change is not covered.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/omni_paxos.rs","omnipaxos/src/storage/internal_storage.rs"],
 ["stop sign","buffered stop sign"],["stop sign occupies the last log position"],
 ["is_reconfigured","append/reconfigure results","durable stop sign"])
p("C14","Batching and forwarding lose and reorder nothing",
 "In a run without faults and under one leader, every entry appended without error at any server is eventually decided, whatever the batch sizes and (non-zero) flush intervals. Entries appended at one server while it knows the leader are decided in the order in which they were appended there. A leader writes a batch as soon as it holds batch_size entries. Messages that still wait in the buffer of the caller stay there when it takes more.",
 ["schedules","inputs","configurations"],
 "every interleaving of appends, ticks, deliveries and collection of outgoing messages under a single leader, batch sizes from 1 to beyond what is appended, per server",
 "Tests append all entries in one go with one batch size; a batch cut by a flush, a forward or a sync needs interleaving.",
 ["omnipaxos/src/storage/state_cache.rs","omnipaxos/src/storage/internal_storage.rs",SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 ["batched entries","buffered proposals","outgoing messages"],["batch flush by size and timer","coalescing accept messages","forwarding"],
 ["decided log","append results"])
p("C15","Storage back-ends implement the storage contract",
 "For every sequence of operations the in-memory and the persistent storage return the same results as an abstract log with a promise, accepted round, decided index, compacted index, snapshot and stop sign, where a group of operations written together takes effect completely or not at all. The persistent storage returns exactly the same state after being closed and opened again at any point.",
 ["programs","inputs","crash_points"],
 "every sequence of storage operations the library can issue, with reopening between any two operations",
 "Storage tests run one fixed sequence per operation; combinations (overwrite after trim, append on prefix, reopen) are not enumerated.",
 ["omnipaxos_storage/src/memory_storage.rs","omnipaxos_storage/src/persistent_storage.rs","omnipaxos/src/storage/mod.rs"],
 ["stored entries","next log key","metadata"],["key ordering","range deletion","write batches"],
 ["results of the storage operations"])
p("C16","Entry compression is transparent",
 "With the cache-based entry compression enabled (least-recently-used or least-frequently-used), every decided entry at every server equals the entry that was appended. The decoder of a synchronised server always reproduces what the encoder of the leader encoded, including after leader changes, resynchronisation and serialisation of the cache.",
 ["schedules","inputs","histories","configurations"],
 "every sequence of encoded values on caches of every small capacity, and every cluster schedule as in C01 with compression enabled",
 "Cache tests encode and decode one fixed stream; divergence needs evictions, ties and cache transfer at specific points.",
 ["omnipaxos/src/unicache/mod.rs","omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu_cache.rs","omnipaxos/src/storage/state_cache.rs","omnipaxos/src/storage/internal_storage.rs"],
 ["encoder and decoder caches"],["eviction","cache transfer in synchronisation"],
 ["durable log","decode results"])
p("C17","Invalid configurations are refused, valid ones work",
 "Building a server succeeds exactly for configurations that satisfy the documented rules (own id among the servers, server ids distinct and, like the configuration id, not zero, at least two servers, election timeout, resend timeout, buffer size and batch size not zero, quorum sizes between two and the number of servers that overlap and whose read quorum is not below the write quorum); every other one is refused with an error, at construction and at reconfiguration. Quorum decisions follow the configured sizes exactly, majorities by default.",
 ["inputs","configurations"],
 "every combination of ids, sizes, quorums and parameters within and around their legal ranges, for clusters of up to seven servers, and every quorum arithmetic for clusters of up to eleven",
 "Tests try a few invalid values each; combinations and boundaries of quorum sizes are not enumerated.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/util.rs","omnipaxos/src/errors.rs"],
 ["cluster configuration","quorum"],["validation","intersection rule"],
 ["build results","reconfigure results"])
p("C18","No panics on healthy storage",
 "As long as the storage does not report errors, no call of the library panics: not on any message another correct server sends, in any interleaving of the links (each delivers in order) and with any losses, nor for any API argument.",
 ["schedules","inputs","fault_sequences","crash_points"],
 "every schedule as in C01 with all API calls, arguments in and out of range",
 "Panics hide in unreachable-looking branches (outdated promises, indexes below the compacted index); tests follow the straight paths.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs","omnipaxos/src/util.rs","omnipaxos/src/storage/internal_storage.rs","omnipaxos/src/omni_paxos.rs"],
 ["all"],["index arithmetic","expectations on message order"],["every API call"])
p("C19","Progress under partial connectivity",
 "As long as some server is running and connected in both directions to a read and a write quorum of running servers, the cluster eventually has a leader that decides newly appended entries, even if other servers cannot reach each other and whatever happened before; and as long as connectivity stays as it is, leadership settles instead of moving on for ever.",
 ["schedules","fault_sequences","configurations"],
 "every history as in C01 followed by a stable period with fixed two-way links in which some running server reaches a read and a write quorum of running servers (stars, chains, random graphs, servers down), 3 to 5 servers",
 "Partial-connectivity tests fix one scenario and one set of timeouts; the outcome depends on who was leader and on ballots before the partition.",
 ["omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs",SP+"leader.rs"],
 ["heartbeat replies","happiness flag","ballots"],["quorum-connected servers take over","unhappy followers"],
 ["decided index"])
p("C20","Messages survive serialisation",
 "With the serde feature every message a server emits can be serialised and deserialised, in a compact binary as well as in a self-describing format, and the message that arrives equals the one that was sent in every field; so a cluster whose links serialise messages behaves like one that hands them over directly.",
 ["schedules","inputs","configurations","histories"],
 "every message sent in any execution as in C01 (all kinds, with log synchronisation by entries, by complete and by delta snapshots, stop signs with and without metadata and quorum sizes, empty and batched entries)",
 "The tests exchange messages as in-memory values; no test serialises a message.",
 ["omnipaxos/src/messages.rs","omnipaxos/src/util.rs","omnipaxos/src/storage/mod.rs","omnipaxos/src/ballot_leader_election.rs"],
 ["messages"],["serde derives and attributes of messages and of what they contain"],
 ["messages as they arrive after serialisation"])
p("C21","Status reports are truthful",
 "What get_ui_states returns agrees at every moment with the rest: its decided index and leader are those of get_decided_idx and get_current_leader, and its ballot is the server's own; it lists exactly the heartbeat replies that arrived in the last completed heartbeat round, a round lasting election_tick_timeout ticks; and while a server leads in the Accept phase, the accepted index it shows for a server (at that server's id) is at least what that server has acknowledged in the round, never more than it has durably accepted in it, and for itself exactly the length of its log.",
 ["schedules","histories","crash_points","configurations"],
 "every execution as in C01, after every call of every running server; server ids that are not 1..n",
 "No test looks at this view at all; what it should show depends on which acknowledgements and heartbeats arrived in which round.",
 ["omnipaxos/src/utils/ui.rs","omnipaxos/src/omni_paxos.rs","omnipaxos/src/util.rs","omnipaxos/src/ballot_leader_election.rs",SP+"leader.rs"],
 ["accepted indexes of the leader state","heartbeat replies"],["bookkeeping of acknowledgements and heartbeat rounds"],
 ["get_ui_states"])
p("C22","Quiescence: an idle healthy cluster only exchanges heartbeats",
 "When all servers run, all links deliver, a leader is established everywhere and everything appended is decided everywhere, then as long as nobody calls append, trim, snapshot, reconfigure or asks for leadership, the servers send each other nothing but heartbeats (in a stopped configuration also repeated decide messages), and what the servers have stored does not change.",
 ["schedules","fault_sequences","histories","configurations"],
 "every history of faults as in C01, followed by a fault-free period long enough to converge and a further one of several resend and election timeouts without user calls",
 "Tests end as soon as the values they wait for are decided; a message resent forever, or an endless change of leaders, does not fail them.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/ballot_leader_election.rs",SP+"leader.rs",SP+"follower.rs",SP+"mod.rs"],
 ["outgoing messages","durable state","resend timers"],["resend only what is unacknowledged","stable leader"],
 ["outgoing messages","durable state after every storage write"])
for x in P:
    assert len(x["title"])<=80,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
