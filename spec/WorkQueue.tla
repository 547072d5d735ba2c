------------------------------ MODULE WorkQueue ------------------------------
(* A blocking first-in-first-out queue and the task schedulers built on it.                                             *)
(*   q     values in the queue;  call: thread -> the operation it is in and whether it took effect                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thread, Values
VARIABLES q, call
qvars == <<q, call>>
None == [op |-> "-", v |-> 0, st |-> "-"]
QInit(T) == q = <<>> /\ call = [t \in T |-> None]
PushCall(t, v) == call[t] = None /\ call' = [call EXCEPT ![t] = [op |-> "push", v |-> v, st |-> "new"]] /\ UNCHANGED q
PopCall(t, timed) == call[t] = None /\ call' = [call EXCEPT ![t] = [op |-> IF timed THEN "timed" ELSE "pop", v |-> 0, st |-> "new"]] /\ UNCHANGED q
EmptyCall(t) == call[t] = None /\ call' = [call EXCEPT ![t] = [op |-> "empty", v |-> 0, st |-> "new"]] /\ UNCHANGED q
\* the moment at which an operation takes effect
Effect(t) == /\ call[t].st = "new"
             /\ CASE call[t].op = "push" -> q' = Append(q, call[t].v) /\ call' = [call EXCEPT ![t].st = "done"]
                  [] call[t].op \in {"pop", "timed"} -> /\ q # <<>> /\ q' = Tail(q) /\ call' = [call EXCEPT ![t].st = "done", ![t].v = Head(q)]
                  [] call[t].op = "empty" -> call' = [call EXCEPT ![t].st = "done", ![t].v = IF q = <<>> THEN 1 ELSE 0] /\ UNCHANGED q
                  [] OTHER -> FALSE
\* a timed pop gives up only when there was nothing at the end of its waiting time
GiveUp(t) == call[t].op = "timed" /\ call[t].st = "new" /\ q = <<>> /\ call' = [call EXCEPT ![t].st = "gone"] /\ UNCHANGED q
Return(t, ok, v) == /\ call[t].st = (IF ok THEN "done" ELSE "gone") /\ (ok /\ call[t].op # "push" => call[t].v = v)
                    /\ call' = [call EXCEPT ![t] = None] /\ UNCHANGED q
\* model: every thread pushes its own values once, the others pop
VARIABLES todo, out
mvars == <<qvars, todo, out>>
MInit == QInit(Thread) /\ todo = [t \in Thread |-> Values[t]] /\ out = <<>>
MNext == \/ \E t \in Thread : todo[t] # <<>> /\ Head(todo[t]) > 0 /\ PushCall(t, Head(todo[t])) /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED out
         \/ \E t \in Thread : todo[t] # <<>> /\ Head(todo[t]) <= 0 /\ PopCall(t, Head(todo[t]) = 0) /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED out
         \/ \E t \in Thread : (Effect(t) \/ GiveUp(t)) /\ UNCHANGED <<todo, out>>
         \/ \E t \in Thread : call[t].st = "done" /\ Return(t, TRUE, call[t].v) /\ out' = (IF call[t].op # "push" THEN Append(out, call[t].v) ELSE out) /\ UNCHANGED todo
         \/ \E t \in Thread : call[t].st = "gone" /\ Return(t, FALSE, 0) /\ UNCHANGED <<todo, out>>
         \/ (\A t \in Thread : todo[t] = <<>> /\ (call[t] = None \/ (call[t].op = "pop" /\ q = <<>>))) /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)
AllOut == {out[i] : i \in 1..Len(out)} \cup {q[i] : i \in 1..Len(q)}
Once == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
\* nothing is lost: what was pushed is in the queue, with a popper, or out
Pushed == UNION {{Values[t][i] : i \in 1..(Len(Values[t]) - Len(todo[t]))} : t \in Thread}
Kept == \A v \in Pushed : v > 0 => \/ v \in AllOut \/ \E t \in Thread : call[t].v = v
\* a popper does not wait while something is there (fairness): eventually the queue is empty or no popper waits
Served == <>[](q = <<>> \/ \A t \in Thread : call[t].op # "pop")
==============================================================================
