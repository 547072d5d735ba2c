----------------------------- MODULE ThreadPoolModel -----------------------------
EXTENDS ThreadPool
CONSTANTS Tasks, Prios, Room
Next == \/ \E k \in 1..Tasks, p \in Prios : (\A j \in 1..(k - 1) : j \in DOMAIN tasks) /\ Give(k, p)
        \/ \E k \in DOMAIN tasks : Enqueue(k) \/ Start(k) \/ End(k)
        \/ Take(Room) \/ Stop \/ Stopped
Spec == PInit /\ [][Next]_pvars /\ WF_pvars(\E k \in DOMAIN tasks : Enqueue(k) \/ Start(k) \/ End(k)) /\ WF_pvars(Take(Room)) /\ WF_pvars(Stopped)
EveryTaskRunsOrIsDropped == \A k \in 1..Tasks : (k \in DOMAIN tasks) ~> (k \in DOMAIN tasks /\ tasks[k].ph \in {"ended", "dropped"})
=============================================================================
