--------------------------- MODULE SpinWaitTrace ---------------------------
(* st/lastSeen as in SpinWait (time and condition come from the recorded history); back-off counters             *)
EXTENDS SpinWait, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, spins, quiet   \* spins since reset; consecutive give-ups without a sleep
tvars == <<wvars, tid, l, spins, quiet>>
T == Traces[tid]
Ev == T.ev[l]
Last == Len(T.ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ spins = 0 /\ quiet = 0
             /\ now = 0 /\ cond = FALSE /\ st = "idle" /\ start = 0 /\ lastSeen = "none"
Consume == l <= Last /\ l' = l + 1 /\ UNCHANGED tid
NoSpin == UNCHANGED <<spins, quiet>>
NoWait == UNCHANGED wvars
TFlip == Consume /\ Ev.e = "flip" /\ cond' = TRUE /\ now' = Ev.at /\ UNCHANGED <<st, start, lastSeen>> /\ NoSpin
TCall == Consume /\ Ev.e = "c" /\ st = "idle" /\ st' = "calling" /\ start' = Ev.at /\ now' = Ev.at /\ lastSeen' = "none" /\ UNCHANGED cond /\ NoSpin
TEval == Consume /\ Ev.e = "eval" /\ st = "calling" /\ now' = Ev.at /\ lastSeen' = (IF Ev.v = 1 THEN "yes" ELSE "no") /\ (Ev.v = 1) = cond
         /\ lastSeen # "yes"                                     \* a condition that held is not asked again
         /\ (Ev.timeout = 0 => lastSeen = "none")                \* no waiting was asked for
         /\ (Ev.timeout >= 0 => Ev.at - start <= (Ev.timeout + 40) * 1000)   \* and a deadline is not overrun by far
         /\ UNCHANGED <<cond, st, start>> /\ NoSpin
TRet  == /\ Consume /\ Ev.e = "r" /\ st = "calling" /\ st' = "idle" /\ now' = Ev.at
         /\ \/ Ev.v = "true" /\ MayBeTrue
            \/ Ev.v = "false" /\ MayBeFalse(Ev.timeout, Ev.at)
            \/ Ev.v = "range" /\ MayFail(Ev.timeout)
         /\ UNCHANGED <<cond, start, lastSeen>> /\ NoSpin
TReset == Consume /\ Ev.e = "reset" /\ spins' = 0 /\ quiet' = 0 /\ NoWait
\* g = 1: gave up the processor, s = virtual microseconds slept, n = counter reported afterwards, w = announced to yield
TOnce == /\ Consume /\ Ev.e = "once" /\ spins' = spins + 1 /\ Ev.n = spins + 1
         /\ (Ev.g = 1) = (spins > T.yieldAfter) /\ (Ev.w = 1) = (spins > T.yieldAfter)
         /\ Ev.s > 0 => Ev.g = 1
         /\ quiet' = (IF Ev.g = 0 \/ Ev.s >= 1000 THEN 0 ELSE quiet + 1) /\ quiet' < T.sleepEvery
         /\ NoWait
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<wvars, tid>> /\ NoSpin
TraceNext == ((TFlip \/ TCall \/ TEval \/ TRet \/ TReset \/ TOnce) /\ Pos) \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
