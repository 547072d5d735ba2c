---------------------------- MODULE SettingTrace ----------------------------
EXTENDS Setting, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<svars, tid, l>>
Ev == Traces[tid].ev[l]
Last == Len(Traces[tid].ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == SInit /\ tid \in 1..Len(Traces) /\ l = 1
Consume == l <= Last /\ l' = l + 1 /\ UNCHANGED tid
TCall == Consume /\ Ev.e = "c" /\ Call(Ev.t, Ev.op, Ev.v)
TRet  == Consume /\ Ev.e = "r" /\ pend[Ev.t].op = Ev.op /\ Ret(Ev.t, Ev.v)
TSee  == Consume /\ Ev.e = "see" /\ Ev.v = Seen(Ev.t) /\ UNCHANGED svars
TWork == Consume /\ Ev.e = "set" /\ Work(Ev.t, Ev.v)
TLin  == l <= Last /\ Ev.e = "r" /\ UNCHANGED <<tid, l>> /\ \E t \in Thread : Lin(t)
TEnd  == Consume /\ Ev.e = "end" /\ (\A t \in Thread : pend[t] = Idle) /\ UNCHANGED svars
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<svars, tid>>
TraceNext == ((TCall \/ TRet \/ TSee \/ TWork \/ TEnd) /\ Pos) \/ TLin \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == OneWriter
=============================================================================
