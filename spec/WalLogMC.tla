------------------------------ MODULE WalLogMC ------------------------------
(* Exhaustive exploration of WalLog: any writer that respects its guards.   *)
EXTENDS WalLog
CONSTANTS Policies, MaxTime, MaxLen, MaxSegs, MaxAcks

Configs == {[sync |-> p, n |-> 2, maxb |-> 3, age |-> a, keep |-> k] :
              p \in Policies, a \in {0, 2}, k \in {0, 3}}

Init == \E c \in Configs : WInit(c)

Next ==
  \/ up /\ Len(segs) < MaxSegs /\ (IF segs = <<>> THEN TRUE ELSE segs[Active].len > 0) /\ Create
  \/ \E n \in 1..2 : up /\ segs # <<>> /\ segs[Active].len + n <= MaxLen /\ Write(n)
  \/ \E i \in Live : UnsyncedOf(i) > 0 /\ Sync(i)
  \/ up /\ Len(acks) < MaxAcks /\ Ack
  \/ now < MaxTime /\ Tick(now + 1)
  \/ \E i \in Live : Evict(i)
  \/ up /\ Close
  \/ ~up /\ Opened

Spec == Init /\ [][Next]_wvars
=============================================================================
