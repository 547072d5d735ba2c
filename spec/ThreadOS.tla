------------------------------ MODULE ThreadOS ------------------------------
(* Thread and process attributes as a user sees them: name, CPU affinity, scheduling policy and priority.         *)
(* Thread 0 is the calling thread, -1 a thread object without a thread. NCpu processors.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NCpu, MaxName
VARIABLES name, mask, sched, pmask, psched    \* functions of the thread; and of the process
ovars == <<name, mask, sched, pmask, psched>>
AllCpus == [i \in 1..NCpu |-> 1]
Other == 0  Fifo == 1  RoundRobin == 2
PrioMin(p) == IF p = Other THEN 0 ELSE 1
PrioMax(p) == IF p = Other THEN 0 ELSE 99
ValidSched(p, prio) == p \in {Other, Fifo, RoundRobin} /\ prio \in PrioMin(p)..PrioMax(p)
\* a requested map may be shorter or longer than the number of processors: missing entries mean "not used"
Norm(m) == [i \in 1..NCpu |-> IF i <= Len(m) THEN m[i] ELSE 0]
UsesSome(m) == \E i \in 1..NCpu : Norm(m)[i] = 1
OInit(T) == /\ name = [t \in T |-> <<105>>] /\ mask = [t \in T |-> AllCpus] /\ sched = [t \in T |-> <<Other, 0>>]
            /\ pmask = AllCpus /\ psched = <<Other, 0>>
\* every setter: res is "ok" or "error"; an error changes nothing; oserr: the operating system refused
SetName(t, n, oserr, res) == LET ok == t >= 0 /\ Len(n) <= MaxName /\ ~oserr IN
   /\ res = (IF ok THEN "ok" ELSE "error") /\ name' = (IF ok THEN [name EXCEPT ![t] = n] ELSE name) /\ UNCHANGED <<mask, sched, pmask, psched>>
SetMask(t, m, oserr, res) == LET ok == t >= 0 /\ UsesSome(m) /\ ~oserr IN
   /\ res = (IF ok THEN "ok" ELSE "error") /\ mask' = (IF ok THEN [mask EXCEPT ![t] = Norm(m)] ELSE mask) /\ UNCHANGED <<name, sched, pmask, psched>>
SetSched(t, p, prio, oserr, res) == LET ok == t >= 0 /\ ValidSched(p, prio) /\ ~oserr IN
   /\ res = (IF ok THEN "ok" ELSE "error") /\ sched' = (IF ok THEN [sched EXCEPT ![t] = <<p, prio>>] ELSE sched) /\ UNCHANGED <<name, mask, pmask, psched>>
SetPMask(pidok, m, oserr, res) == LET ok == pidok /\ UsesSome(m) /\ ~oserr IN
   /\ res = (IF ok THEN "ok" ELSE "error") /\ pmask' = (IF ok THEN Norm(m) ELSE pmask) /\ UNCHANGED <<name, mask, sched, psched>>
SetPSched(pidok, p, prio, oserr, res) == LET ok == pidok /\ ValidSched(p, prio) /\ ~oserr IN
   /\ res = (IF ok THEN "ok" ELSE "error") /\ psched' = (IF ok THEN <<p, prio>> ELSE psched) /\ UNCHANGED <<name, mask, sched, pmask>>
\* getters: what was set last, or an error
GetName(t, oserr, res, v)  == IF t < 0 \/ oserr THEN res = "error" ELSE res = "ok" /\ v = name[t]
GetMask(t, oserr, res, v)  == IF t < 0 \/ oserr THEN res = "error" ELSE res = "ok" /\ v = mask[t]
GetSched(t, oserr, res, v) == IF t < 0 \/ oserr THEN res = "error" ELSE res = "ok" /\ v = sched[t]
GetPMask(ok, oserr, res, v)  == IF ~ok \/ oserr THEN res = "error" ELSE res = "ok" /\ v = pmask
GetPSched(ok, oserr, res, v) == IF ~ok \/ oserr THEN res = "error" ELSE res = "ok" /\ v = psched
=============================================================================
