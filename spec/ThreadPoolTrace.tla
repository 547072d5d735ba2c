----------------------------- MODULE ThreadPoolTrace -----------------------------
(* Recorded histories of the real pool under a deterministic scheduler with virtual time (ms): entering the queue and   *)
(* being taken are internal steps that must explain which task starts when.                                             *)
EXTENDS ThreadPool, Integers, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ts, res, want
tvars == <<pvars, tid, l, ts, res, want>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Last == Len(Tr.ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
\* a pool for CPU bound tasks has a fixed number of workers; one for IO bound tasks may create more
Room == IF Tr.io THEN 1000 ELSE Tr.min
Prompt == 1000 \* ms; no task of the harness takes that long
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ PInit /\ ts = <<>> /\ res = {} /\ want = <<>>
Consume(e) == l <= Last /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
Keep == UNCHANGED <<ts, res, want>>
TStep == \/ Consume("init") /\ Ev.n >= Tr.min /\ UNCHANGED pvars /\ Keep
         \/ Consume("sub") /\ Give(Ev.k, Ev.p) /\ ts' = [k \in DOMAIN ts \cup {Ev.k} |-> IF k = Ev.k THEN Ev.ts ELSE ts[k]] /\ UNCHANGED res
            /\ want' = [k \in DOMAIN want \cup {Ev.k} |-> IF k = Ev.k THEN Ev.want ELSE want[k]]
         \/ Consume("subr") /\ Submitted(Ev.k) /\ Keep
         \/ Consume("st") /\ Start(Ev.k) /\ Ev.ts - ts[Ev.k] < Prompt /\ Keep
         \/ Consume("en") /\ End(Ev.k) /\ Keep
         \* the outcome of a task reaches its future; a dropped task's future reports that
         \/ /\ Consume("res") /\ Ev.k \in DOMAIN tasks /\ Ev.k \notin res /\ res' = res \cup {Ev.k} /\ UNCHANGED <<pvars, ts, want>>
            /\ IF tasks[Ev.k].ph = "ended" THEN Ev.v = want[Ev.k] ELSE tasks[Ev.k].ph = "dropped" /\ Ev.v = -1
         \/ Consume("quiet") /\ (\A k \in DOMAIN tasks : tasks[k].ph = "ended") /\ UNCHANGED pvars /\ Keep
         \* workers that are in use stay
         \/ Consume("warm") /\ Ev.n >= Ev.used /\ UNCHANGED pvars /\ Keep
         \* unused workers have gone
         \/ Consume("idle") /\ Ev.n = Tr.min /\ UNCHANGED pvars /\ Keep
         \/ Consume("down") /\ Stop /\ ~Ev.was /\ ts' = [k \in DOMAIN ts \cup {0} |-> IF k = 0 THEN Ev.ts ELSE ts[k]] /\ UNCHANGED <<res, want>>
         \/ Consume("downr") /\ Stopped /\ Ev.is /\ Ev.n = 0 /\ Ev.ts - ts[0] < Prompt /\ Keep
         \/ Consume("over") /\ down = "down" /\ UNCHANGED pvars /\ Keep
\* internal steps are only needed before an event that depends on them
Internal == /\ l <= Last /\ Ev.e \in {"st", "subr", "down", "downr"}
            /\ (\E k \in DOMAIN tasks : Enqueue(k)) \/ Take(Room)
            /\ UNCHANGED <<tid, l, ts, res, want>>
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<pvars, tid, ts, res, want>>
TraceNext == (TStep /\ Pos) \/ Internal \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
