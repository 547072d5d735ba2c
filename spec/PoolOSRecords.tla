--------------------------- MODULE PoolOSRecords ---------------------------
(* What the workers of a thread pool look like to the operating system after its affinity mask, scheduling policy or   *)
(* name was set, and what happens to the thread that set it (nothing).                                                  *)
EXTENDS Records, FiniteSets
MaxName == 15
Cut(s) == SubSeq(s, 1, IF Len(s) < MaxName THEN Len(s) ELSE MaxName)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Hash == 35
Digits == 48..57
\* "<pool>#<number>", cut to what the system allows
WorkerName(nm, pool) == /\ Len(nm) <= MaxName /\ nm # <<>>
                        /\ IF Len(pool) >= MaxName THEN nm = Cut(pool)
                           ELSE /\ IsPrefix(Append(pool, Hash), nm)
                                /\ \A i \in (Len(pool) + 2)..Len(nm) : nm[i] \in Digits
                                /\ Len(nm) = MaxName \/ Len(nm) > Len(pool) + 1
TaskName == <<97, 32, 116, 97, 115, 107, 32, 119, 105, 116, 104, 32, 97, 32, 114>> \* "a task with a r"
Cores(m) == {i \in 1..Len(m) : m[i] = 1}
Spread(r) == LET want == Cores(r.mask)
                 n == Len(r.w)
                 load(c) == Cardinality({k \in 1..n : c \in Cores(r.w[k].mask)})
             IN IF r.mask = <<>> THEN \A k \in 1..n : Cores(r.w[k].mask) = 1..r.ncpu
                ELSE IF r.io THEN \A k \in 1..n : Cores(r.w[k].mask) = want
                ELSE /\ \A k \in 1..n : Cores(r.w[k].mask) # {} /\ Cores(r.w[k].mask) \subseteq want
                     /\ UNION {Cores(r.w[k].mask) : k \in 1..n} = want
                     \* equally: no worker has two cores more than another, no core two workers more than another
                     /\ \A j, k \in 1..n : Cardinality(Cores(r.w[j].mask)) <= Cardinality(Cores(r.w[k].mask)) + 1
                     /\ \A c, d \in want : load(c) <= load(d) + 1
Ok(r) == /\ r.res = "ok" /\ r.get
         /\ Spread(r)
         /\ \A k \in 1..Len(r.w) : r.w[k].policy = r.policy /\ r.w[k].prio = r.prio
         /\ \A k \in 1..Len(r.w) : IF r.k = "named" THEN r.w[k].name = TaskName ELSE WorkerName(r.w[k].name, r.pool)
         /\ Cores(r.caller.mask) = 1..r.ncpu /\ r.caller.policy = 0 /\ r.caller.prio = 0 /\ r.caller.name = <<105>>
         /\ r.refused # <<>> => \A i \in 1..3 : LET c == <<1, 2, 4>>[i] IN r.refused[i] = IF c \in Cores(r.mask) THEN 0 ELSE 1
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
