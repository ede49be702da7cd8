------------------------------- MODULE Tonbo -------------------------------
(***************************************************************************)
(* System-level specification of tonbo: an MVCC, log-structured, embedded  *)
(* table store.                                                            *)
(*                                                                         *)
(* The state has two halves.                                               *)
(*   abstract:   `commits`, the sequence of committed write sets; the      *)
(*               answer to every read is a function of it.                 *)
(*   structural: where the row versions physically are - the mutable       *)
(*               memtable, the sealed memtables, the SSTs of each manifest *)
(*               version, and the write-ahead log that must be able to     *)
(*               rebuild what is only in memory.                           *)
(* The invariants say that the structural half always answers reads like   *)
(* the abstract half, before and after a crash.  Every step also records   *)
(* itself, with the observations the abstract half predicts, in `log`;     *)
(* the harness replays those logs against the real engine.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Predicates

CONSTANTS
  NK,          \* number of keys; keys are 1..NK in key order
  Acts,        \* set of enabled action names
  Depth,       \* length of the behaviours
  MaxCommits,  \* bound on commits
  MaxImm,      \* bound on sealed memtables
  MaxSst,      \* bound on SSTs ever created
  MaxSeg,      \* bound on log segments
  MaxSnap,     \* bound on snapshots ever taken
  MaxTxn,      \* bound on transactions ever begun
  MaxOpen,     \* bound on restarts
  MaxBatch,    \* bound on keys per write batch
  Dups,        \* may a batch carry superseded duplicate rows
  Emit         \* print behaviours of length Depth

VARIABLES
  commits,  \* <<ws1, ws2, ...>>: ws_i maps a key to its value (0 = deleted); i is the timestamp
  mem,      \* row versions in the mutable memtable
  imm,      \* sequence of sets of row versions: sealed memtables, oldest first
  man,      \* sequence of manifest versions; a version is [lv, floor]
  nsst,     \* number of SSTs ever created
  wal,      \* sequence of log records [ts, seg]
  seg,      \* active log segment
  gone,     \* removed log segments
  snaps,    \* sequence of [ts, mv, open]
  txns,     \* sequence of [ts, mv, st, ws]
  nval,     \* number of values ever written (values are write ids)
  nopen,    \* number of restarts
  prev,     \* durable state before the last step (for a process that dies inside it)
  log       \* behaviour so far

vars == <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, txns, nval, nopen, prev, log>>
\* Distinct-state identity for exhaustive checking: everything but the behaviour.
StateView == <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, txns, nval, nopen, prev>>

Keys == 1..NK
Levels == 0..1
Now == Len(commits)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

-----------------------------------------------------------------------------
(* Abstract reads.                                                         *)

\* Value of key k as of timestamp ts (0: absent).
ValueAt(cs, k, ts) ==
  LET W == {i \in 1..Len(cs) : i <= ts /\ k \in DOMAIN cs[i]}
  IN  IF W = {} THEN 0 ELSE cs[MaxOf(W)][k]

ViewAt(cs, ts) == [k \in Keys |-> ValueAt(cs, k, ts)]

\* A transaction sees its snapshot overlaid with its own staged writes.
Overlay(f, ws) == [k \in Keys |-> IF k \in DOMAIN ws THEN ws[k] ELSE f[k]]

\* Sorted result rows of a view, as the scan must return them.
Rows(f) == SelectSeq([i \in 1..NK |-> <<i, f[i]>>], LAMBDA p : p[2] # 0)

-----------------------------------------------------------------------------
(* Structural reads.                                                       *)

Ver(k, ts, v) == [k |-> k, ts |-> ts, v |-> v]
VersOf(ws, ts) == {Ver(k, ts, ws[k]) : k \in DOMAIN ws}

Top == man[Len(man)]
SstVers(m) == UNION {UNION {m.lv[l][i].vs : i \in 1..Len(m.lv[l])} : l \in Levels}
MemVers == mem \cup UNION {imm[i] : i \in 1..Len(imm)}

\* The newest version of k no newer than ts among S.
Newest(S, k, ts) ==
  LET C == {x \in S : x.k = k /\ x.ts <= ts}
  IN  IF C = {} THEN 0 ELSE (CHOOSE x \in C : \A y \in C : y.ts <= x.ts).v
ReadFrom(S, ts) == [k \in Keys |-> Newest(S, k, ts)]

\* A reader pinned at manifest version mv consults memory and every SST published since.
PinnedVers(mv) == MemVers \cup UNION {SstVers(man[i]) : i \in mv..Len(man)}

\* The part of the state that is in storage: what a process that dies leaves behind.
Durable == [commits |-> commits, man |-> man, nsst |-> nsst, wal |-> wal, seg |-> seg, gone |-> gone]

\* What recovery rebuilds: log records at or above the floor in segments not removed.
WalVersOf(d) ==
  LET floor == d.man[Len(d.man)].floor
  IN  UNION {VersOf(d.commits[d.wal[i].ts], d.wal[i].ts) :
               i \in {j \in 1..Len(d.wal) : d.wal[j].seg \notin d.gone /\ d.wal[j].ts >= floor}}
WalVers == WalVersOf(Durable)

-----------------------------------------------------------------------------
(* Predicted observations.                                                 *)

Obs(cs, sn, tx) ==
  [view |-> Rows(ViewAt(cs, Len(cs))),
   sv |-> [i \in 1..Len(sn) |-> IF sn[i].open THEN Rows(ViewAt(cs, sn[i].ts)) ELSE << <<0, 0>> >>],
   tv |-> [i \in 1..Len(tx) |-> IF tx[i].st = "open"
                                THEN Rows(Overlay(ViewAt(cs, tx[i].ts), tx[i].ws))
                                ELSE << <<0, 0>> >>]]

\* args is a record naming the action; the observation is of the successor state.
Record(args) ==
  /\ log' = Append(log, args @@ Obs(commits', snaps', txns'))
  /\ prev' = IF "die" \in Acts \/ "fail" \in Acts THEN Durable ELSE prev

-----------------------------------------------------------------------------
EmptyWs == [k \in {} |-> 0]
NoSsts == [l \in Levels |-> <<>>]

Init ==
  /\ commits = <<>> /\ mem = {} /\ imm = <<>>
  /\ man = << [lv |-> NoSsts, floor |-> 1] >>
  /\ nsst = 0 /\ wal = <<>> /\ seg = 1 /\ gone = {}
  /\ snaps = <<>> /\ txns = <<>> /\ nval = 0 /\ nopen = 0
  /\ prev = Durable
  /\ log = <<>>

Go(a) == a \in Acts /\ Len(log) < Depth

\* Install a write set as the next commit: logged first, then visible in the memtable.
Install(ws) ==
  /\ commits' = Append(commits, ws)
  /\ wal' = Append(wal, [ts |-> Now + 1, seg |-> seg])
  /\ mem' = mem \cup VersOf(ws, Now + 1)

\* The rows of a batch in order; a superseded duplicate comes before the row that wins.
RECURSIVE RowSeq(_, _, _)
RowSeq(ks, ws, dups) ==
  IF ks = {} THEN <<>>
  ELSE LET k == MaxOf(ks)      \* descending order: engines must sort
       IN (IF k \in dups THEN << <<k, ws[k], 1>> >> ELSE <<>>)
          \o << <<k, ws[k], 0>> >> \o RowSeq(ks \ {k}, ws, dups)

\* Simulation samples a choice instead of enumerating every successor.
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S

Rank(S, k) == Cardinality({x \in S : x <= k})

\* A batch ("ingest"), or a transaction begun and committed in one step ("tx").
Write(op) ==
  /\ Go(op) /\ Now < MaxCommits
  /\ \E S \in Pick({X \in SUBSET Keys : X # {} /\ Cardinality(X) <= MaxBatch}) :
     \E D \in Pick(SUBSET S) :
       /\ LET P  == S \ D
              ws == [k \in S |-> IF k \in D THEN 0 ELSE nval + Rank(P, k)]
          IN \E dup \in Pick(IF Dups THEN {{}, {MinOf(S)}, S} ELSE {{}}) :
               /\ Install(ws)
               /\ nval' = nval + Cardinality(P)
               /\ UNCHANGED <<imm, man, nsst, seg, gone, snaps, txns, nopen>>
               /\ Record([op |-> op, rows |-> RowSeq(S, ws, dup)])

Seal ==
  /\ Go("seal") /\ mem # {} /\ Len(imm) < MaxImm
  /\ imm' = Append(imm, mem) /\ mem' = {}
  /\ UNCHANGED <<commits, man, nsst, wal, seg, gone, snaps, txns, nval, nopen>>
  /\ Record([op |-> "seal"])

\* Flush every sealed memtable into one level-0 SST; the log floor may rise to the oldest
\* commit that is still only in the mutable memtable.
Flush ==
  /\ Go("flush") /\ imm # <<>> /\ nsst < MaxSst
  /\ LET vs    == UNION {imm[i] : i \in 1..Len(imm)}
         sst   == [id |-> nsst + 1, vs |-> vs]
         floor == IF mem = {} THEN Now + 1 ELSE MinOf({x.ts : x \in mem})
     IN man' = Append(man, [lv |-> [Top.lv EXCEPT ![0] = Append(@, sst)], floor |-> floor])
  /\ nsst' = nsst + 1 /\ imm' = <<>>
  /\ UNCHANGED <<commits, mem, wal, seg, gone, snaps, txns, nval, nopen>>
  /\ Record([op |-> "flush"])

\* Keep, per key, only the newest version.
Squash(vs) == {x \in vs : \A y \in vs : y.k = x.k => y.ts <= x.ts}

\* Merge a non-empty prefix-closed choice of level-0 SSTs (with any subset of level 1) into
\* level 1.  Old files stay readable for pinned readers: their manifest versions keep them.
Compact ==
  /\ Go("compact") /\ Top.lv[0] # <<>> /\ nsst < MaxSst
  /\ \E n \in Pick(1..Len(Top.lv[0])) : \E J \in Pick(SUBSET (1..Len(Top.lv[1]))) :
       LET ins  == {Top.lv[0][i] : i \in 1..n} \cup {Top.lv[1][i] : i \in J}
           out  == [id |-> nsst + 1, vs |-> Squash(UNION {x.vs : x \in ins})]
           keep0 == SubSeq(Top.lv[0], n + 1, Len(Top.lv[0]))
           RECURSIVE Keep(_)
           Keep(i) == IF i > Len(Top.lv[1]) THEN <<>>
                      ELSE (IF i \in J THEN <<>> ELSE <<Top.lv[1][i]>>) \o Keep(i + 1)
       IN man' = Append(man, [Top EXCEPT !.lv = [l \in Levels |->
                                IF l = 0 THEN keep0 ELSE Append(Keep(1), out)]])
  /\ nsst' = nsst + 1
  /\ UNCHANGED <<commits, mem, imm, wal, seg, gone, snaps, txns, nval, nopen>>
  /\ Record([op |-> "compact"])

Rotate ==
  /\ Go("rotate") /\ seg < MaxSeg /\ \E i \in 1..Len(wal) : wal[i].seg = seg
  /\ seg' = seg + 1
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, gone, snaps, txns, nval, nopen>>
  /\ Record([op |-> "rotate"])

\* Remove a log segment none of whose records is needed any more.
Prune ==
  /\ Go("prune")
  /\ LET R == {s \in 1..(seg - 1) : s \notin gone /\
                 \A i \in 1..Len(wal) : wal[i].seg = s => wal[i].ts < Top.floor}
     IN R # {} /\ gone' = gone \cup R
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, snaps, txns, nval, nopen>>
  /\ Record([op |-> "prune"])

\* Known finding K01: on a table that never committed anything, snapshots share the first
\* commit's timestamp.  Behaviours take snapshots once something is committed; K01 has its own
\* reproduction.
SnapReady == Now > 0

Snap ==
  /\ Go("snap") /\ SnapReady /\ Len(snaps) < MaxSnap
  /\ snaps' = Append(snaps, [ts |-> Now, mv |-> Len(man), open |-> TRUE])
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, txns, nval, nopen>>
  /\ Record([op |-> "snap", id |-> Len(snaps) + 1])

Begin ==
  /\ Go("begin") /\ SnapReady /\ Len(txns) < MaxTxn
  /\ txns' = Append(txns, [ts |-> Now, mv |-> Len(man), st |-> "open", ws |-> EmptyWs])
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, nval, nopen>>
  /\ Record([op |-> "begin", id |-> Len(txns) + 1])

OpenTxns == {t \in 1..Len(txns) : txns[t].st = "open"}

Stage(t, k, v) == txns' = [txns EXCEPT ![t].ws = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN v ELSE @[x]]]

TPut ==
  /\ Go("put")
  /\ \E t \in OpenTxns, k \in Keys :
       /\ Stage(t, k, nval + 1) /\ nval' = nval + 1
       /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, nopen>>
       /\ Record([op |-> "put", id |-> t, k |-> k, v |-> nval + 1])

TDel ==
  /\ Go("del")
  /\ \E t \in OpenTxns, k \in Keys :
       /\ Stage(t, k, 0)
       /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, nval, nopen>>
       /\ Record([op |-> "del", id |-> t, k |-> k])

\* First committer wins: a staged key committed by someone else since the snapshot is a conflict.
Conflicts(t) == \E k \in DOMAIN txns[t].ws : \E i \in (txns[t].ts + 1)..Now : k \in DOMAIN commits[i]

Commit ==
  /\ Go("commit")
  /\ \E t \in OpenTxns :
       /\ UNCHANGED <<imm, man, nsst, seg, gone, snaps, nval, nopen>>
       /\ \/ /\ Conflicts(t)
             /\ txns' = [txns EXCEPT ![t].st = "conflict"]
             /\ UNCHANGED <<commits, wal, mem>>
             /\ Record([op |-> "commit", id |-> t, res |-> "conflict"])
          \/ /\ ~Conflicts(t)
             /\ txns' = [txns EXCEPT ![t].st = "committed"]
             /\ IF txns[t].ws = EmptyWs
                THEN UNCHANGED <<commits, wal, mem>>
                ELSE Now < MaxCommits /\ Install(txns[t].ws)
             /\ Record([op |-> "commit", id |-> t, res |-> "ok"])

Abort ==
  /\ Go("abort")
  /\ \E t \in OpenTxns :
       /\ txns' = [txns EXCEPT ![t].st = "aborted"]
       /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, nval, nopen>>
       /\ Record([op |-> "abort", id |-> t])

\* Open the table again from durable state d.
OpenFrom(d) ==
  /\ commits' = d.commits /\ man' = d.man /\ nsst' = d.nsst /\ wal' = d.wal /\ gone' = d.gone
  /\ mem' = WalVersOf(d) /\ imm' = <<>>
  /\ seg' = IF \E i \in 1..Len(d.wal) : d.wal[i].seg = d.seg THEN d.seg + 1 ELSE d.seg
  /\ snaps' = [i \in 1..Len(snaps) |-> [snaps[i] EXCEPT !.open = FALSE]]
  /\ txns' = [i \in 1..Len(txns) |->
                IF txns[i].st = "open" THEN [txns[i] EXCEPT !.st = "lost"] ELSE txns[i]]
  /\ nopen' = nopen + 1
  /\ UNCHANGED nval

\* Simulated behaviours spread their restarts.
RestartDue == nopen < MaxOpen /\ (Emit => Len(log) > 3 * nopen)

\* The process ends (cleanly or not) and the table is opened again from storage.
Restart(kind) ==
  /\ Go(kind) /\ RestartDue
  /\ OpenFrom(Durable)
  /\ Record([op |-> kind])

\* The process dies at some storage operation inside the step just recorded, instead of completing
\* it.  Storage then either shows the whole step or nothing of it; v0 and v1 are the two tables.
DiesIn == {"ingest", "tx", "commit", "seal", "flush", "compact", "rotate", "prune", "reopen", "crash"}
\* Generated behaviours should not all restart after a plain write.
Rarely(op) == Emit => op \notin {"ingest", "tx", "reopen", "crash"} \/ RandomElement(1..3) = 1
Die ==
  /\ Go("die") /\ RestartDue /\ log # <<>> /\ log[Len(log)].op \in DiesIn
  /\ Rarely(log[Len(log)].op)
  /\ \E took \in Pick(BOOLEAN) :
       /\ OpenFrom(IF took THEN Durable ELSE prev)
       /\ Record([op |-> "die", took |-> IF took THEN 1 ELSE 0,
                  v0 |-> Rows(ViewAt(prev.commits, Len(prev.commits))),
                  v1 |-> Rows(ViewAt(commits, Now))])

\* A storage operation inside the step just recorded fails instead.  The step may report success,
\* and then has to stand; an error leaves open whether it took effect, but only as a whole.  Reads
\* go on, and a write that follows is subject to the same rule.  v0, v1: the table without and with
\* the step; w0, w1: the same after the write of <<k, v>> that follows.
Followed(d, k, v) ==
  [d EXCEPT !.commits = Append(@, k :> v), !.wal = Append(@, [ts |-> Len(d.commits) + 1, seg |-> d.seg])]
TableOf(d) == Rows(ViewAt(d.commits, Len(d.commits)))
Fail ==
  /\ Go("fail") /\ RestartDue /\ log # <<>> /\ log[Len(log)].op \in DiesIn \ {"seal"}
  /\ Rarely(log[Len(log)].op)
  /\ Now < MaxCommits
  /\ \E took \in Pick(BOOLEAN), wrote \in Pick(BOOLEAN), k \in Pick(Keys) :
       LET d == IF took THEN Durable ELSE prev
           v == nval + 1
       IN /\ commits' = (IF wrote THEN Followed(d, k, v) ELSE d).commits
          /\ man' = d.man /\ nsst' = d.nsst /\ gone' = d.gone
          /\ wal' = (IF wrote THEN Followed(d, k, v) ELSE d).wal
          /\ mem' = WalVersOf(IF wrote THEN Followed(d, k, v) ELSE d) /\ imm' = <<>>
          /\ seg' = d.seg + 1
          /\ snaps' = [i \in 1..Len(snaps) |-> [snaps[i] EXCEPT !.open = FALSE]]
          /\ txns' = [i \in 1..Len(txns) |->
                        IF txns[i].st = "open" THEN [txns[i] EXCEPT !.st = "lost"] ELSE txns[i]]
          /\ nopen' = nopen + 1 /\ nval' = nval + 1
          /\ Record([op |-> "fail", took |-> IF took THEN 1 ELSE 0, wrote |-> IF wrote THEN 1 ELSE 0,
                     k |-> k, v |-> v, v0 |-> TableOf(prev), v1 |-> TableOf(Durable),
                     w0 |-> TableOf(Followed(prev, k, v)), w1 |-> TableOf(Followed(Durable, k, v))])

-----------------------------------------------------------------------------
(* Queries: a filter, projection and limit over any readable table are the *)
(* full scan, filtered, cut to the first rows.  (The projection is chosen  *)
(* by the harness: it does not change which rows are returned.)            *)

Targets == {<<"db", 0>>} \cup {<<"snap", i>> : i \in {j \in 1..Len(snaps) : snaps[j].open}}
                        \cup {<<"txn", t>> : t \in OpenTxns}
TargetView(t) == CASE t[1] = "db" -> ViewAt(commits, Now)
                   [] t[1] = "snap" -> ViewAt(commits, snaps[t[2]].ts)
                   [] t[1] = "txn" -> Overlay(ViewAt(commits, txns[t[2]].ts), txns[t[2]].ws)

Cut(rows, n) == IF n < 0 \/ n >= Len(rows) THEN rows ELSE SubSeq(rows, 1, n)
Answer(q) == Cut(SelectSeq(Rows(TargetView(q.on)), LAMBDA r : Sat(q.p, r[1], r[2])), q.lim)

RandQuery == [on |-> RandomElement(Targets),
              p |-> RandPred(NK, nval, RandomElement(1..4), RandomElement(0..2)),
              lim |-> RandomElement({-1, -1, -2, 0, 1, 2, 3})]
Answered(q) == [on |-> q.on[1], id |-> q.on[2], p |-> q.p, lim |-> q.lim, rows |-> Answer(q)]

Query ==
  /\ Go("query") /\ Emit /\ Rows(ViewAt(commits, Now)) # <<>>
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, txns, nval, nopen>>
  /\ \E q1 \in {RandQuery}, q2 \in {RandQuery}, q3 \in {RandQuery}, q4 \in {RandQuery} :
       Record([op |-> "query", qs |-> << Answered(q1), Answered(q2), Answered(q3), Answered(q4) >>])

-----------------------------------------------------------------------------
(* Damage to the log at rest: opening may be refused; if it is not, the    *)
(* table is that of some moment no earlier than what the files hold.       *)

FlushedTs == LET T == {x.ts : x \in SstVers(Top)} IN IF T = {} THEN 0 ELSE MaxOf(T)
Moments == [i \in 1..(Now - FlushedTs + 1) |-> Rows(ViewAt(commits, FlushedTs + i - 1))]

Damage ==
  /\ Go("damage") /\ Now > 0 /\ Emit
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, txns, nval, nopen>>
  /\ Record([op |-> "damage", allow |-> Moments])

\* A write the table cannot accept (wrong columns, a null key, a bitmap of the wrong length, ...) is
\* refused and has no effect, neither now nor after a restart.
Reject ==
  /\ Go("reject") /\ Emit
  /\ UNCHANGED <<commits, mem, imm, man, nsst, wal, seg, gone, snaps, txns, nval, nopen>>
  /\ \E k \in Pick(Keys), t \in Pick(0..Len(txns)) :
       Record([op |-> "reject", k |-> k, v |-> nval + 1,
               id |-> IF t \in OpenTxns THEN t ELSE 0])

\* Simulation prints a behaviour when it is complete; this step has exactly one successor, so
\* each simulated behaviour is printed once.
Finish ==
  /\ Emit /\ Len(log) = Depth
  /\ log' = Append(log, [op |-> "end"])
  /\ UNCHANGED <<prev, commits, mem, imm, man, nsst, wal, seg, gone, snaps, txns, nval, nopen>>

Next ==
  \/ Finish
  \/ Write("ingest") \/ Write("tx") \/ Seal \/ Flush \/ Compact \/ Rotate \/ Prune \/ Snap \/ Begin \/ TPut \/ TDel
  \/ Commit \/ Abort \/ Restart("reopen") \/ Restart("crash") \/ Die \/ Fail \/ Query
  \/ Damage \/ Reject

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants.                                                             *)

\* Every read answers from the newest committed version.
ReadsCurrent == ReadFrom(MemVers \cup SstVers(Top), Now) = ViewAt(commits, Now)

\* An open snapshot or transaction keeps answering as of the moment it was taken.
SnapshotsStable ==
  /\ \A i \in 1..Len(snaps) : snaps[i].open =>
       ReadFrom(PinnedVers(snaps[i].mv), snaps[i].ts) = ViewAt(commits, snaps[i].ts)
  /\ \A i \in 1..Len(txns) : txns[i].st = "open" =>
       ReadFrom(PinnedVers(txns[i].mv), txns[i].ts) = ViewAt(commits, txns[i].ts)

\* Files hold a prefix of the commits: replaying any longer prefix of the log on top of them
\* gives the table of that moment.
FilesHoldPrefix ==
  \A i \in FlushedTs..Now :
    ReadFrom(SstVers(Top) \cup {x \in WalVers : x.ts <= i}, Now) = ViewAt(commits, i)

\* A crash now loses nothing that was acknowledged.
Recoverable == ReadFrom(WalVers \cup SstVers(Top), Now) = ViewAt(commits, Now)

\* No lost update: two committed transactions whose lifetimes overlap have disjoint write sets.
\* (commit order of txn t is recovered from the write ids it installed)
CommitTs(t) == IF DOMAIN txns[t].ws = {} THEN 0
               ELSE LET C == {i \in 1..Now : i > txns[t].ts /\ commits[i] = txns[t].ws}
                    IN IF C = {} THEN 0 ELSE MinOf(C)
NoLostUpdate ==
  \A t, u \in 1..Len(txns) :
    (t # u /\ txns[t].st = "committed" /\ txns[u].st = "committed"
       /\ CommitTs(t) > 0 /\ CommitTs(u) > 0 /\ CommitTs(t) < CommitTs(u)
       /\ DOMAIN txns[t].ws \cap DOMAIN txns[u].ws # {})
      => txns[u].ts >= CommitTs(t)

\* Nothing uncommitted is ever physically readable.
NoPhantoms == \A x \in PinnedVers(1) : x.ts <= Now /\ x.k \in DOMAIN commits[x.ts] /\ commits[x.ts][x.k] = x.v

\* A filter on the key may be applied to each version before merging; in general only there.
KeyAtoms == {Pred("key", "", op, a, 0, <<>>, <<>>) : op \in CmpOps, a \in Keys}
KeyPushdownSafe ==
  \A p \in KeyAtoms :
    LET S == MemVers \cup SstVers(Top)
    IN  ReadFrom({x \in S : Sat(p, x.k, x.v)}, Now)
          = [k \in Keys |-> IF Sat(p, k, ViewAt(commits, Now)[k]) THEN ViewAt(commits, Now)[k] ELSE 0]
\* A filter on values may be applied before merging only where every key has one version.
ValueAtoms == {Pred("val", "vid", op, a, 0, <<>>, <<>>) : op \in CmpOps, a \in 0..nval}
ValuePushdownSafeIfSingle ==
  LET S == MemVers \cup SstVers(Top)
  IN  (\A x, y \in S : x.k = y.k => x = y) =>
        \A p \in ValueAtoms :
          ReadFrom({x \in S : x.v = 0 \/ Sat(p, x.k, x.v)}, Now)
            = [k \in Keys |-> IF Sat(p, k, ViewAt(commits, Now)[k]) THEN ViewAt(commits, Now)[k] ELSE 0]

\* Behaviour export.
Export == (Emit /\ Len(log) = Depth + 1) => PrintT("@@" \o ToJson(log))
=============================================================================
