------------------------------ MODULE SpinWait ------------------------------
(* spinUntil(condition, timeout): the caller's condition is evaluated repeatedly while virtual time (in           *)
(* microseconds) passes and another thread may make it true; timeout in milliseconds, -1 = for ever.              *)
(* spinOnce back-off: spins on the processor YieldAfter+1 times, then gives it up every time, and sleeps at       *)
(* least once in every SleepEvery consecutive times.                                                              *)
EXTENDS Integers, Sequences
CONSTANTS Timeout, MaxTime
VARIABLES now, cond, st,    \* st: "calling" "true" "false" "error"
          start, lastSeen   \* result of the last evaluation ("none" before the first)
wvars == <<now, cond, st, start, lastSeen>>
WInit == now = 0 /\ cond \in BOOLEAN /\ st = "calling" /\ start = 0 /\ lastSeen = "none"
Eval  == st = "calling" /\ lastSeen' = (IF cond THEN "yes" ELSE "no") /\ UNCHANGED <<now, cond, st, start>>
Tick  == now < MaxTime /\ now' = now + 1000 /\ UNCHANGED <<cond, st, start, lastSeen>>
Flip  == ~cond /\ cond' = TRUE /\ UNCHANGED <<now, st, start, lastSeen>>
MayBeTrue  == lastSeen = "yes"
MayBeFalse(t, at) == t >= 0 /\ lastSeen = "no" /\ at - start > (t - 1) * 1000    \* the clock counts whole milliseconds
MayFail(t) == t < -1 /\ lastSeen = "none"
RetTrue  == st = "calling" /\ MayBeTrue /\ st' = "true" /\ UNCHANGED <<now, cond, start, lastSeen>>
RetFalse == st = "calling" /\ MayBeFalse(Timeout, now) /\ st' = "false" /\ UNCHANGED <<now, cond, start, lastSeen>>
RetError == st = "calling" /\ MayFail(Timeout) /\ st' = "error" /\ UNCHANGED <<now, cond, start, lastSeen>>
WNext == (Timeout >= -1 /\ Eval) \/ Tick \/ Flip \/ RetTrue \/ RetFalse \/ RetError
WSpec == WInit /\ [][WNext]_wvars /\ WF_wvars(Eval) /\ WF_wvars(RetTrue) /\ WF_wvars(RetFalse) /\ WF_wvars(RetError) /\ WF_wvars(Tick)
NeverGivesUp  == (Timeout = -1) => st # "false"
TrueIsTrue    == st = "true" => cond
NotTooEarly   == st = "false" => (now - start) > (Timeout - 1) * 1000
Terminates    == (Timeout # -1) => <>(st # "calling")
WaitsForTruth == (cond /\ Timeout = -1) ~> (st = "true")
=============================================================================
