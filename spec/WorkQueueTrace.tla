--------------------------- MODULE WorkQueueTrace ---------------------------
(* Recorded histories: queue operations (some order of effects between call and return must explain all results), and  *)
(* schedulers: a task runs at most once, at most n at a time, and has run when the scheduler was not stopped.           *)
EXTENDS WorkQueue, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, s
tvars == <<qvars, tid, l, s>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Last == Len(Tr.ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ QInit(1..6) /\ todo = 0 /\ out = 0
             /\ s = [given |-> {}, begun |-> {}, ended |-> {}, late |-> {}, stopping |-> FALSE, stopped |-> FALSE]
Consume(e) == l <= Last /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<tid, todo, out>>
Quiet == UNCHANGED <<qvars, s>>
TQueue == \/ Consume("uc") /\ PushCall(Ev.t, Ev.v) /\ UNCHANGED s
          \/ Consume("ur") /\ Return(Ev.t, TRUE, 0) /\ UNCHANGED s
          \/ Consume("oc") /\ PopCall(Ev.t, Ev.timed) /\ UNCHANGED s
          \/ Consume("or") /\ Return(Ev.t, Ev.ok, Ev.v) /\ (~Ev.ok => Ev.waited >= Ev.limit) /\ UNCHANGED s
          \/ Consume("ec") /\ EmptyCall(Ev.t) /\ UNCHANGED s
          \/ Consume("er") /\ Return(Ev.t, TRUE, Ev.v) /\ UNCHANGED s
Internal == /\ l <= Last /\ Ev.e \in {"ur", "or", "er", "qend"} /\ \E t \in 1..6 : Effect(t) \/ GiveUp(t)
            /\ UNCHANGED <<tid, l, s, todo, out>>
TTask == \/ Consume("give") /\ Ev.k \notin s.given /\ s' = [s EXCEPT !.given = @ \cup {Ev.k}, !.late = IF s.stopping THEN @ \cup {Ev.k} ELSE @] /\ UNCHANGED qvars
         \/ Consume("tb") /\ Ev.k \in s.given \ s.begun /\ ~s.stopped /\ s' = [s EXCEPT !.begun = @ \cup {Ev.k}] /\ UNCHANGED qvars
            /\ Cardinality(s.begun \ s.ended) < Tr.threads
         \/ Consume("te") /\ Ev.k \in s.begun \ s.ended /\ s' = [s EXCEPT !.ended = @ \cup {Ev.k}] /\ UNCHANGED qvars
         \* the future becomes ready only after the task ended
         \/ Consume("fut") /\ Ev.k \in s.ended /\ Quiet
         \/ Consume("stop") /\ s' = [s EXCEPT !.stopping = TRUE] /\ UNCHANGED qvars
         \/ Consume("stopped") /\ s.begun = s.ended /\ s' = [s EXCEPT !.stopped = TRUE] /\ UNCHANGED qvars
         \/ Consume("tend") /\ s.begun = s.ended /\ Quiet
TEnd == Consume("qend") /\ (\A t \in 1..6 : call[t] = None) /\ q = Ev.left /\ Quiet
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<qvars, tid, s, todo, out>>
TraceNext == ((TQueue \/ TTask \/ TEnd) /\ Pos) \/ Internal \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, todo, out>>
=============================================================================
