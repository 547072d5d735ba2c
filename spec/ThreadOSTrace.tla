--------------------------- MODULE ThreadOSTrace ---------------------------
EXTENDS ThreadOS, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<ovars, tid, l>>
E == Traces[tid].ev[l]
Last == Len(Traces[tid].ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == OInit({0, 1, 2}) /\ tid \in 1..Len(Traces) /\ l = 1
Step == /\ l <= Last /\ l' = l + 1 /\ UNCHANGED tid
        /\ CASE E.op = "setname" -> SetName(E.t, E.a, E.os = 1, E.res)
             [] E.op = "setmask" -> SetMask(E.t, E.a, E.os = 1, E.res)
             [] E.op = "setsched" -> SetSched(E.t, E.a[1], E.a[2], E.os = 1, E.res)
             [] E.op = "setpmask" -> SetPMask(E.t >= 0, E.a, E.os = 1, E.res)
             [] E.op = "setpsched" -> SetPSched(E.t >= 0, E.a[1], E.a[2], E.os = 1, E.res)
             [] E.op = "getname" -> GetName(E.t, E.os = 1, E.res, E.a) /\ UNCHANGED ovars
             [] E.op = "getmask" -> GetMask(E.t, E.os = 1, E.res, E.a) /\ UNCHANGED ovars
             [] E.op = "getsched" -> GetSched(E.t, E.os = 1, E.res, E.a) /\ UNCHANGED ovars
             [] E.op = "getpmask" -> GetPMask(E.t >= 0, E.os = 1, E.res, E.a) /\ UNCHANGED ovars
             [] E.op = "getpsched" -> GetPSched(E.t >= 0, E.os = 1, E.res, E.a) /\ UNCHANGED ovars
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<ovars, tid>>
TraceNext == (Step /\ Pos) \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
