----------------------------- MODULE RWLockTrace -----------------------------
(* Every recorded history of the real lock must be a behaviour of RWLock.                                       *)
EXTENDS RWLock, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev[l]
Last == Len(Traces[tid].ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)

TraceInit == RWInit /\ tid \in 1..Len(Traces) /\ l = 1
Consume == l <= Last /\ l' = l + 1 /\ UNCHANGED tid
TCall == Consume /\ Ev.e = "c" /\ Call(Ev.t, Ev.op, Ev.k)
TRet  == Consume /\ Ev.e = "r" /\ pend[Ev.t].op = Ev.op /\ Ret(Ev.t, Ev.v)
\* linearisation steps are internal: taken only when the next event is a return (no loss of generality)
TLin  == l <= Last /\ Ev.e = "r" /\ UNCHANGED <<tid, l>> /\ \E t \in Thread : Lin(t)
TEnd  == Consume /\ Ev.e = "end" /\ Ev.v = count /\ (\A t \in Thread : pend[t] = Idle /\ held[t] = "-") /\ UNCHANGED vars
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<vars, tid>>
TraceNext == ((TCall \/ TRet \/ TEnd) /\ Pos) \/ TLin \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == Exclusion /\ CountExact
=============================================================================
