#!/usr/bin/env python3
"""Writes known-findings.txt from the fix commits in /repo (ids by commit subject)."""
import subprocess
M=[("merge delta snapshots into the receiver","C12","a server that synced by delta snapshot while its own log held undecided/older entries stored a snapshot that was not the decided prefix (also C01, C05)"),
("never move the decided index backwards","C02","a follower that had decided more than its new leader moved its decided index back when syncing"),
("start a new AcceptDecide after an AcceptSync","C06","entries accepted after a resync were merged into an AcceptDecide queued before the AcceptSync, so a follower dropped them and acknowledged a log it did not have (also C05)"),
("do not count the stopsign as part of the common","C13","log sync against a server whose accepted index included a stop sign cut the log at the wrong position (also C03, C06, C07)"),
("sync a log with a server that has not decided all trimmed","C18","panic when syncing with a server whose decided index lies below the trimmed index (also C11)"),
("only consider the servers of the configuration when trimming","C11","with non-contiguous server ids trim was refused forever"),
("forward a buffered stopsign","C13","a reconfiguration proposed before a leader was known was never forwarded (also C08)"),
("reading an empty range or an out of bounds","C18","reads of empty or extreme ranges panicked (also C10)"),
("elect a server that has the highest ballot due to","C09","a server whose own ballot is highest only because of an increased priority was never elected; servers disagreed on the leader forever (also C08, C19)"),
("rejoin after recovering with an own ballot","C08","a server that crashed right after electing itself never rejoined"),
("do not send a delta snapshot for a promise that can be","C12","a resent, outdated promise was answered with a delta snapshot that was merged twice (also C01, C05)"),
("adopt the decided index together with the log of a lost","C12","a new leader adopted a snapshot from a server whose promise it had lost, leaving its decided index below the snapshot (also C07, C01)"),
("promise again if the leader does not know of our promise","C08","a follower whose promise the leader had reset after syncing it ignored all further Prepares and never received entries again"),
("refuse configurations with pid 0 or duplicate","C17","configurations with server id 0 or duplicate server ids were accepted (id 0 panics later)"),
("restore the LRU cache for encoding with its capacity","C16","an LRU cache that was sent in serialized form was restored with the capacity of its length, so it evicted where the leader's did not (also panics on an empty one)"),
("a cloned LFU cache evicts in the same order","C16","the clone of an LFU cache lost the use counts and the order, so a synchronised follower evicted other items than the leader and decoded wrong values or panicked"),
("send batched entries with the AcceptSync","C16","a follower synchronised while entries were batched got a cache that already knew them and then the entries themselves: its cache differed from the leader's"),
("a new leader encodes with a fresh UniCache","C16","a server that had followed another leader encoded with a cache of one item while its followers decoded with the configured size: panics"),
("cloning a UniCache used for decoding","C16","an AcceptSync message that is cloned lost the items of its cache: the follower panicked on the first encoded entry"),
("PersistentStorage rolls back a write that failed","C15","a write that failed half-way (an entry that cannot be serialized) left part of a group in the batch of the next write and a wrong next index"),
("storage returns no entries for an interval that is partly","C15","get_entries/get_suffix of an interval that was partly trimmed returned only the rest (persistent) or panicked (memory) instead of nothing, as documented"),
("refuse oversized quorums without overflowing","C17","quorum sizes near the largest number overflowed (panic, or accepted in release builds) instead of being refused"),
("count every server only once in a heartbeat round","C09","a restarted server whose heartbeat round numbers repeat could count two replies of one server in a round and stand for election without having heard from a quorum (get_ui_states listed the server twice, C21)"),
("acknowledge a resent stopsign again","C08","if the acknowledgement of a stop sign was lost, the resent stop sign was not acknowledged: the reconfiguration was never decided and resent forever (also C13, C22)"),
]
EXTRA="/verif/tools/fixed_extra.txt"
out=subprocess.run(["git","-C","/repo","log","--format=%h %s","--reverse"],capture_output=True,text=True).stdout.splitlines()
L=[]
for l in out:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    m=[x for x in M if x[0] in s]
    assert len(m)==1,(s,m)
    L.append(f"fixed: property={m[0][1]} {h} {m[0][2]}")
open("/verif/known-findings.txt","w").write("# Genuine defects found by these checks.  'fixed:' entries suppress nothing.\n# 'finding:' entries: property=<id> key=<what identifies it> <text>\n"+"\n".join(L)+"\n")
