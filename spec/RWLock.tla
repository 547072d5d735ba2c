------------------------------- MODULE RWLock -------------------------------
(* Reader-writer-group lock (ReaderWriterLock) and, with kind "m", the plain mutex (AtomicMutex).               *)
(* count > 0: that many readers hold it; count < 0: that many writers hold it (writers may share it among each   *)
(* other - "multi-reader-multi-writer"); readers and writers never hold it together.                             *)
(* An operation is Call -> Lin (its atomic effect) -> Ret.                                                       *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Thread, Mode      \* Mode \in {"rw", "mutex"}
VARIABLES count,            \* value of the lock
          held,             \* [Thread -> {"-", "r", "w", "m"}] what the client holds, lock-side view
          pend,             \* [Thread -> pending operation]
          dirty             \* [Thread -> BOOLEAN] did another thread change count since t's call
vars == <<count, held, pend, dirty>>

Idle == [op |-> "-", k |-> "-", lin |-> FALSE, v |-> 0]
RWInit == count = 0 /\ held = [t \in Thread |-> "-"] /\ pend = [t \in Thread |-> Idle] /\ dirty = [t \in Thread |-> FALSE]

Delta(k) == IF k = "r" THEN 1 ELSE -1
Compatible(k) == CASE k = "r" -> count >= 0 [] k = "w" -> count <= 0 [] OTHER -> count = 0
Locks   == {"lock", "glock", "try"}
Unlocks == {"unlock", "gunlock"}

Call(t, op, k) == /\ pend[t] = Idle
                  /\ op \in Unlocks => held[t] = k
                  /\ op \in Locks   => held[t] = "-"
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, k |-> k, lin |-> FALSE, v |-> 0]]
                  /\ dirty' = [dirty EXCEPT ![t] = FALSE]
                  /\ UNCHANGED <<count, held>>

Effect(t, c, h, v) == /\ count' = c /\ held' = [held EXCEPT ![t] = h]
                      /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].v = v]
                      /\ dirty' = [u \in Thread |-> dirty[u] \/ (u # t /\ c # count)]

\* what the lock reports: lock/unlock return the new count, a guard and the plain mutex report nothing
Report(op, k, c) == IF op \in {"glock", "gunlock"} \/ k = "m" THEN 0 ELSE c

LinLock(t)   == LET p == pend[t] IN
                /\ p.op \in {"lock", "glock"} /\ ~p.lin /\ Compatible(p.k)
                /\ Effect(t, count + Delta(p.k), p.k, Report(p.op, p.k, count + Delta(p.k)))
LinTryOk(t)  == LET p == pend[t] IN
                /\ p.op = "try" /\ ~p.lin /\ Compatible(p.k)
                /\ Effect(t, count + Delta(p.k), p.k, 1)
\* a try may fail only if the lock is taken by the other kind at some moment of the call, or if it collided with
\* another thread changing the lock during the call
LinTryFail(t) == LET p == pend[t] IN
                /\ p.op = "try" /\ ~p.lin /\ (~Compatible(p.k) \/ dirty[t])
                /\ Effect(t, count, "-", 0)
LinUnlock(t) == LET p == pend[t] IN
                /\ p.op \in Unlocks /\ ~p.lin
                /\ Effect(t, count - Delta(p.k), "-", Report(p.op, p.k, count - Delta(p.k)))
LinValue(t)  == LET p == pend[t] IN
                /\ p.op = "value" /\ ~p.lin /\ Effect(t, count, held[t], count)
Lin(t) == LinLock(t) \/ LinTryOk(t) \/ LinTryFail(t) \/ LinUnlock(t) \/ LinValue(t)

Ret(t, v) == /\ pend[t].lin /\ pend[t].v = v
             /\ pend' = [pend EXCEPT ![t] = Idle]
             /\ UNCHANGED <<count, held, dirty>>

Kinds == IF Mode = "rw" THEN {"r", "w"} ELSE {"m"}
Ops   == IF Mode = "rw" THEN {"lock", "try", "value"} ELSE {"lock"}
RWNext == \E t \in Thread :
            \/ held[t] = "-" /\ \E op \in Ops, k \in Kinds : Call(t, op, k)
            \/ held[t] # "-" /\ Call(t, "unlock", held[t])
            \/ held[t] # "-" /\ Mode = "rw" /\ Call(t, "value", held[t])
            \/ Lin(t)
            \/ Ret(t, pend[t].v)
RWSpec == RWInit /\ [][RWNext]_vars

---------------------------------------------------------------------------
Readers == {t \in Thread : held[t] = "r"}
Writers == {t \in Thread : held[t] = "w"}
Owners  == {t \in Thread : held[t] = "m"}
Exclusion  == ~(Readers # {} /\ Writers # {}) /\ Cardinality(Owners) <= 1
CountExact == count = Cardinality(Readers) - Cardinality(Writers) - Cardinality(Owners)
\* nobody waits while the lock is free: whenever the lock is free every pending acquisition can take effect
NoLostLock == (\A t \in Thread : held[t] = "-") => \A t \in Thread : (pend[t].op = "lock" /\ ~pend[t].lin) => ENABLED LinLock(t)
=============================================================================
