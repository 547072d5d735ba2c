------------------------------- MODULE ThreadPool -------------------------------
(* BasicThreadPool: tasks with a priority are submitted, taken from the queue by workers (highest priority first, in   *)
(* the order of submission among equals), run once, and their result or exception reaches whoever holds the future.    *)
(* Shutdown lets running tasks finish, drops the queued ones and returns once no worker is left.                       *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES tasks,  \* task -> [p: priority, ph: "given" (being submitted), "queued", "taken" (by a worker), "runs", "ended", "dropped"]
          queue,  \* tasks in the order they are to be taken
          down    \* "up", "stopping", "down"
pvars == <<tasks, queue, down>>

PInit == tasks = <<>> /\ queue = <<>> /\ down = "up"
In(ph) == {k \in DOMAIN tasks : tasks[k].ph = ph}
Busy == In("taken") \cup In("runs")

\* the position of a new task: behind every task of the same or of a higher priority
Place(q, p) == LET behind == {i \in 1..Len(q) : tasks[q[i]].p >= p}
                   m == Cardinality(behind)  \* the queue is sorted, so this is a prefix
               IN m
Insert(q, k, p) == LET m == Place(q, p) IN SubSeq(q, 1, m) \o <<k>> \o SubSeq(q, m + 1, Len(q))

Give(k, p) == /\ k \notin DOMAIN tasks /\ down = "up"
              /\ tasks' = [x \in DOMAIN tasks \cup {k} |-> IF x = k THEN [p |-> p, ph |-> "given"] ELSE tasks[x]]
              /\ UNCHANGED <<queue, down>>
Enqueue(k) == /\ tasks[k].ph = "given" /\ queue' = Insert(queue, k, tasks[k].p)
              /\ tasks' = [tasks EXCEPT ![k].ph = "queued"] /\ UNCHANGED down
\* a worker takes the first task, if one of its `room` workers is free
Take(room) == /\ queue # <<>> /\ Cardinality(Busy) < room /\ down # "down"
              /\ tasks' = [tasks EXCEPT ![queue[1]].ph = "taken"] /\ queue' = Tail(queue) /\ UNCHANGED down
Start(k) == k \in DOMAIN tasks /\ tasks[k].ph = "taken" /\ down # "down" /\ tasks' = [tasks EXCEPT ![k].ph = "runs"] /\ UNCHANGED <<queue, down>>
End(k) == k \in DOMAIN tasks /\ tasks[k].ph = "runs" /\ tasks' = [tasks EXCEPT ![k].ph = "ended"] /\ UNCHANGED <<queue, down>>
Submitted(k) == tasks[k].ph # "given" /\ UNCHANGED pvars
Stop == down = "up" /\ In("given") = {} /\ down' = "stopping" /\ UNCHANGED <<tasks, queue>>
Stopped == /\ down = "stopping" /\ Busy = {} /\ down' = "down" /\ queue' = <<>>
           /\ tasks' = [k \in DOMAIN tasks |-> IF tasks[k].ph = "queued" THEN [tasks[k] EXCEPT !.ph = "dropped"] ELSE tasks[k]]

\* what holds in every reachable state
Sorted == \A i, j \in 1..Len(queue) : i < j => tasks[queue[i]].p >= tasks[queue[j]].p
Consistent == {queue[i] : i \in 1..Len(queue)} = In("queued") /\ Cardinality(In("queued")) = Len(queue)
NothingLeft == down = "down" => \A k \in DOMAIN tasks : tasks[k].ph \in {"ended", "dropped"}
=============================================================================
