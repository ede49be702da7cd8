-------------------------------- MODULE Lin --------------------------------
(* What concurrent clients of one database may observe.

   Each history recorded from the real code (harness/src/conc.rs) is a sequence of
   invocations, responses and crashes with the operations' results.  A history is allowed
   iff this specification has a behaviour with the same invocations and responses: every
   write and commit takes a place in one order of commit timestamps at some moment between
   its start and its end, a snapshot fixes a prefix of that order, reads see exactly that
   prefix, a transaction commits iff none of its keys was written behind its snapshot, and
   after a crash every acknowledged write is there and an unacknowledged one is there
   completely or not at all.

   Calm histories (polite = TRUE: snapshots are not taken while a write is under way, plain
   ingests do not overlap commits) are judged exactly so.  In the others the timestamp of a
   write and its appearance are separate steps (known findings K04 and K05 are about the
   window between them): a read at a timestamp inside the window may or may not see the
   write, key by key.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hists == ndJsonDeserialize(IOEnv.HIST)
Diag == IOEnv.DIAG = "1"

VARIABLES
    h,        \* the history being judged
    pos,      \* events consumed
    order,    \* commits in timestamp order: [op, ws, applied]
    st,       \* op -> "idle" | "run" | "alloc" | "eff" | "over"
    bt        \* snapshot id -> length of the prefix it sees

vars == <<h, pos, order, st, bt>>

Ops == Hists[h].ops
Ev == Hists[h].ev
Polite == Hists[h].polite
Keys == 1..3

Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]

KeysOf(ws) == {ws[i][1] : i \in DOMAIN ws}
\* the value a list of rows gives to key k; 0 = none (no row, or deleted)
Val(ws, k) == IF \E i \in DOMAIN ws : ws[i][1] = k
              THEN ws[CHOOSE i \in DOMAIN ws : ws[i][1] = k][2] ELSE 0

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* the values a read of key k at prefix length t may return
Visible(t, k) ==
    LET mine == {i \in 1..t : k \in KeysOf(order[i].ws)}
        there == {i \in mine : order[i].applied}
        base == IF there = {} THEN 0 ELSE Max(there)
    IN {IF base = 0 THEN 0 ELSE Val(order[base].ws, k)}
       \cup {Val(order[i].ws, k) : i \in {j \in mine : j > base /\ ~order[j].applied}}

RowsOk(rows, t, over) ==
    /\ KeysOf(rows) \subseteq Keys
    /\ Cardinality(KeysOf(rows)) = Len(rows)
    /\ \A i \in DOMAIN rows : rows[i][2] > 0
    /\ \A i \in 1..(Len(rows) - 1) : rows[i][1] < rows[i + 1][1]
    /\ \A k \in Keys :
         IF k \in KeysOf(over) THEN Val(rows, k) = Val(over, k)
                               ELSE Val(rows, k) \in Visible(t, k)

At(a, o) == CHOOSE p \in DOMAIN Ev : Ev[p] = <<a, o>>
Finished(o) == \E p \in DOMAIN Ev : Ev[p] = <<1, o>>
\* operation a ended before operation b began
Before(a, b) == Finished(a) /\ At(1, a) < At(0, b)

Has(o, f) == f \in DOMAIN Ops[o]

----------------------------------------------------------------------------
Init ==
    /\ h \in DOMAIN Hists
    /\ pos = 0
    /\ order = <<>>
    /\ st = [o \in DOMAIN Ops |-> "idle"]
    /\ bt = <<>>

Running(o) == st[o] = "run"

Place(o) == order' = Append(order, [op |-> o, ws |-> Ops[o].ws, applied |-> Polite])
Take(o) ==
    /\ Place(o)
    /\ st' = [st EXCEPT ![o] = IF Polite THEN "eff" ELSE "alloc"]

Write(o) ==
    /\ Running(o) /\ Ops[o].k = "write"
    /\ Take(o)
    /\ UNCHANGED <<h, pos, bt>>

\* versions written behind transaction o's snapshot
Behind(o) ==
    {i \in (bt[Ops[o].t] + 1)..Len(order) : KeysOf(order[i].ws) \cap KeysOf(Ops[o].ws) # {}}

CommitOk(o) ==
    /\ Running(o) /\ Ops[o].k = "commit"
    /\ Has(o, "res") => Ops[o].res = "ok"
    \* two transactions that share a key take turns
    /\ \A i \in DOMAIN order :
         (~order[i].applied /\ Ops[order[i].op].k = "commit" /\ st[order[i].op] # "over")
           => KeysOf(order[i].ws) \cap KeysOf(Ops[o].ws) = {}
    /\ \A i \in Behind(o) : ~order[i].applied
                            \/ (Ops[order[i].op].k = "write" /\ ~Before(order[i].op, o))
    /\ Take(o)
    /\ UNCHANGED <<h, pos, bt>>

CommitConflict(o) ==
    /\ Running(o) /\ Ops[o].k = "commit"
    /\ Has(o, "res") /\ Ops[o].res = "conflict"
    /\ Behind(o) # {}
    /\ st' = [st EXCEPT ![o] = "eff"]
    /\ UNCHANGED <<h, pos, order, bt>>

\* a transaction that wrote nothing always commits
CommitEmpty(o) ==
    /\ Running(o) /\ Ops[o].k = "commit" /\ Ops[o].ws = <<>>
    /\ Has(o, "res") /\ Ops[o].res = "ok"
    /\ st' = [st EXCEPT ![o] = "eff"]
    /\ UNCHANGED <<h, pos, order, bt>>

Apply(i) ==
    /\ ~order[i].applied /\ st[order[i].op] = "alloc"
    /\ order' = [order EXCEPT ![i].applied = TRUE]
    /\ st' = [st EXCEPT ![order[i].op] = "eff"]
    /\ UNCHANGED <<h, pos, bt>>

Begin(o) ==
    /\ Running(o) /\ Ops[o].k = "begin"
    /\ bt' = Put(bt, Ops[o].t, Len(order))
    /\ st' = [st EXCEPT ![o] = "eff"]
    /\ UNCHANGED <<h, pos, order>>

Scan(o) ==
    /\ Running(o) /\ Ops[o].k = "scan" /\ Has(o, "rows")
    /\ RowsOk(Ops[o].rows, Len(order), <<>>)
    /\ st' = [st EXCEPT ![o] = "eff"]
    /\ UNCHANGED <<h, pos, order, bt>>

Read(o) ==
    /\ Running(o) /\ Ops[o].k = "read" /\ Has(o, "rows")
    /\ RowsOk(Ops[o].rows, bt[Ops[o].t], Ops[o].ws)
    /\ st' = [st EXCEPT ![o] = "eff"]
    /\ UNCHANGED <<h, pos, order, bt>>

Consume ==
    /\ pos < Len(Ev)
    /\ pos' = pos + 1
    /\ LET e == Ev[pos + 1] IN
         CASE e[1] = 0 -> /\ st' = [st EXCEPT ![e[2]] = "run"]
                          /\ UNCHANGED order
           [] e[1] = 1 -> /\ st[e[2]] = "eff"
                          /\ st' = [st EXCEPT ![e[2]] = "over"]
                          /\ UNCHANGED order
           \* crash: what was not applied by now never is
           [] OTHER    -> /\ st' = [o \in DOMAIN st |-> IF st[o] = "idle" THEN "idle" ELSE "over"]
                          /\ order' = SelectSeq(order, LAMBDA c : c.applied)
    /\ UNCHANGED <<h, bt>>
    /\ Diag => PrintT(<<"AT", pos'>>)
    /\ pos' = Len(Ev) => PrintT(<<"OK", h>>)

Next ==
    \/ Consume
    \/ \E o \in DOMAIN st :
         \/ Write(o) \/ CommitOk(o) \/ CommitConflict(o) \/ CommitEmpty(o)
         \/ Begin(o) \/ Scan(o) \/ Read(o)
    \/ \E i \in DOMAIN order : Apply(i)

Spec == Init /\ [][Next]_vars
=============================================================================
