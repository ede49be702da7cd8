------------------------------- MODULE WalLog -------------------------------
(***************************************************************************)
(* The write-ahead log as storage sees it: segments that grow, are forced  *)
(* to stable storage (synced), are rotated, and are evicted.               *)
(*                                                                         *)
(* The guards say what the log writer owes its clients under each sync     *)
(* policy, and when it must rotate; the invariants say what that buys: how *)
(* much a power failure may cost at any moment.                            *)
(* WalTrace judges the storage operations recorded from the real writer    *)
(* against these actions; WalLogMC explores them exhaustively.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* [sync, n, maxb, age, keep]: policy and its parameter, size limit, age limit, bytes kept
          \*   (0 = no limit); sync is "always", "bytes", "time" or "off"
  segs,   \* segs[i]: [len, synced, since, born, gone]; segments are numbered 1, 2, ...
  now,    \* time
  up,     \* the log is open
  acks    \* ends of the acknowledged writes: sequence of [seg, len]

wvars == <<cfg, segs, now, up, acks>>

Fresh == [len |-> 0, synced |-> 0, since |-> 0, born |-> 0, gone |-> FALSE]
Active == Len(segs)

RECURSIVE Sum(_, _)
Sum(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + Sum(F, S \ {x})

Live == {i \in 1..Len(segs) : ~segs[i].gone}
UnsyncedOf(i) == segs[i].len - segs[i].synced
Unsynced == Sum(UnsyncedOf, Live)
LenOf(i) == segs[i].len
Retained == Sum(LenOf, Live)
Completed == Sum(LenOf, Live \ {Active})

\* everything before the active segment has reached stable storage
OldSynced == \A i \in Live \ {Active} : UnsyncedOf(i) = 0

WInit(c) ==
  /\ cfg = c
  /\ segs = <<>> /\ now = 0 /\ up = TRUE /\ acks = <<>>

\* A new segment takes the next number.
Create ==
  /\ segs' = Append(segs, Fresh)
  /\ UNCHANGED <<cfg, now, up, acks>>

\* Bytes are appended to the newest segment, and only when the ones before it are safe.
Write(n) ==
  /\ segs # <<>> /\ n > 0
  /\ cfg.sync # "off" => OldSynced
  /\ segs' = [segs EXCEPT ![Active] =
                [@ EXCEPT !.len = @ + n,
                          !.since = IF segs[Active].len = segs[Active].synced THEN now ELSE @,
                          !.born = IF segs[Active].len = 0 THEN now ELSE @]]
  /\ UNCHANGED <<cfg, now, up, acks>>

Sync(i) ==
  /\ i \in Live
  /\ segs' = [segs EXCEPT ![i].synced = segs[i].len]
  /\ UNCHANGED <<cfg, now, up, acks>>

\* A write may be acknowledged when the policy is satisfied and a full segment has been rotated.
Ack ==
  /\ segs # <<>>
  /\ cfg.sync = "always" => Unsynced = 0
  /\ cfg.sync = "bytes" => Unsynced < cfg.n
  /\ cfg.maxb > 0 => segs[Active].len < cfg.maxb
  /\ cfg.keep > 0 => (Completed = 0 \/ Completed <= cfg.keep)
  /\ acks' = Append(acks, IF segs[Active].len > 0 \/ Active = 1
                          THEN [seg |-> Active, len |-> segs[Active].len]
                          ELSE [seg |-> Active - 1, len |-> segs[Active - 1].len])
  /\ UNCHANGED <<cfg, segs, now, up>>

\* Time passes no further than the moment something is due.
Tick(t) ==
  /\ t >= now
  /\ cfg.sync = "time" => \A i \in Live : UnsyncedOf(i) > 0 => t <= segs[i].since + cfg.n
  /\ up /\ cfg.age > 0 /\ segs # <<>> /\ segs[Active].len > 0 => t <= segs[Active].born + cfg.age
  /\ now' = t
  /\ UNCHANGED <<cfg, segs, up, acks>>

\* The oldest segment is evicted while the log is larger than it may be.
Evict(i) ==
  /\ cfg.keep > 0 /\ Retained > cfg.keep
  /\ i \in Live \ {Active} /\ \A j \in Live : i <= j
  /\ segs' = [segs EXCEPT ![i].gone = TRUE]
  /\ UNCHANGED <<cfg, now, up, acks>>

\* An orderly shutdown leaves nothing behind.
Close ==
  /\ cfg.sync # "off" => Unsynced = 0
  /\ up' = FALSE
  /\ UNCHANGED <<cfg, segs, now, acks>>

\* The log is opened again; the age of the active segment counts from here.
Opened ==
  /\ segs' = IF segs = <<>> THEN segs ELSE [segs EXCEPT ![Active].born = now]
  /\ up' = TRUE
  /\ UNCHANGED <<cfg, now, acks>>

-----------------------------------------------------------------------------
(* What a power failure can cost.  Everything synced survives; of the rest *)
(* an arbitrary part does.                                                 *)

Safe(a) == \A i \in Live : /\ i < a.seg => UnsyncedOf(i) = 0
                           /\ i = a.seg => segs[i].synced >= a.len
SafeAcks == {j \in 1..Len(acks) : Safe(acks[j])}
MaxSafe == IF SafeAcks = {} THEN 0 ELSE CHOOSE j \in SafeAcks : \A k \in SafeAcks : k <= j

\* After a power failure, recovery finds the first r writes.
Recovered(r) ==
  /\ r >= MaxSafe /\ r <= Len(acks) + 1
  /\ UNCHANGED wvars

\* With "always" no acknowledged write can be lost.
AlwaysKeepsAll == cfg.sync = "always" => MaxSafe = Len(acks)
\* Only the newest segment can be cut short: the log never has a hole.
NoHole == cfg.sync # "off" => \A i \in Live : UnsyncedOf(i) > 0 => (i = Active \/ segs[Active].len = 0)
\* With "time" nothing stays unsynced longer than the interval.
TimeBound == cfg.sync = "time" => \A i \in Live : UnsyncedOf(i) > 0 => now <= segs[i].since + cfg.n
\* With "bytes" the acknowledged writes that can be lost amount to less than the threshold.
BytesBound == cfg.sync = "bytes" =>
  LET lost == {j \in 1..Len(acks) : ~Safe(acks[j]) /\ acks[j].seg \in Live}
  IN lost # {} =>
       LET j == CHOOSE x \in lost : \A y \in lost : y <= x
       IN acks[j].len - segs[acks[j].seg].synced < cfg.n
=============================================================================
