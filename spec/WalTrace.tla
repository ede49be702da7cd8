------------------------------ MODULE WalTrace ------------------------------
(* Are the storage operations recorded from the real log writer             *)
(* (harness/src/wallog.rs) steps of WalLog?                                 *)
EXTENDS WalLog, TLC, Json, IOUtils

Hists == ndJsonDeserialize(IOEnv.HIST)
Diag == IOEnv.DIAG = "1"

VARIABLES h, pos
tvars == <<h, pos, cfg, segs, now, up, acks>>

Ev == Hists[h].ev

Init ==
  /\ h \in DOMAIN Hists
  /\ pos = 0
  /\ WInit(Hists[h].cfg)

Step(e) ==
  CASE e.e = "create" -> Create /\ e.s = Len(segs) + 1
    [] e.e = "write" -> e.s = Active /\ Write(e.n)
    [] e.e = "sync" -> Sync(e.s)
    [] e.e = "remove" -> Evict(e.s)
    [] e.e = "ack" -> Ack
    [] e.e = "tick" -> Tick(e.n)
    [] e.e = "close" -> Close
    [] e.e = "open" -> Opened
    [] e.e = "recovered" -> Recovered(e.n)

Next ==
  \/ /\ pos < Len(Ev)
     /\ pos' = pos + 1 /\ UNCHANGED h
     /\ Step(Ev[pos + 1])
     /\ Diag => PrintT(<<"AT", pos + 1>>)
  \/ /\ pos = Len(Ev)
     /\ pos' = pos + 1 /\ UNCHANGED <<h, cfg, segs, now, up, acks>>
     /\ PrintT(<<"OK", h>>)

Spec == Init /\ [][Next]_tvars
Bounds == AlwaysKeepsAll /\ NoHole /\ TimeBound /\ BytesBound
=============================================================================
