----------------------------- MODULE ClientTrace -----------------------------
(* Recorded histories of the real client (threads under a deterministic scheduler, virtual time in ms) with brokers played by the harness *)
EXTENDS Client, Integers, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ts
tvars == <<cvars, tid, l, ts>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Last == Len(Tr.ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ CInit /\ ts = 0
Consume(e) == l <= Last /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
Cmd(o) == IF o = "get" THEN 1 ELSE 2
TStep == \/ Consume("call") /\ Ev.k = Len(ops) + 1 /\ Call(Ev.o, Ev.th, Ev.h, Ev.s, Ev.t, Ev.d) /\ UNCHANGED ts
         \/ Consume("ret") /\ UNCHANGED <<cvars, ts>>
         \/ /\ Consume("tx") /\ Ev.p = "MDPC03" /\ UNCHANGED ts /\ Ev.m.e = "" /\ Ev.m.b = ""
            /\ \E k \in Ops : IsReq(k) /\ Ev.cmd = Cmd(ops[k].o) /\ ops[k].h = Ev.h /\ ops[k].s = Ev.s /\ ops[k].t = Ev.m.t /\ ops[k].d = Ev.m.d /\ Sent(k, Ev.c, Ev.m.r)
         \/ Consume("sub") /\ UNCHANGED ts /\ \E k \in Ops : ops[k].h = Ev.h /\ ops[k].t = Ev.z /\ (IF Ev.on THEN On(k) ELSE Off(k))
         \/ Consume("rep") /\ Reply(Ev.c, [ok |-> Ev.ok /\ Ev.cmd \in {4, 9}, s |-> Ev.s, m |-> Ev.m]) /\ UNCHANGED ts
         \/ Consume("pub") /\ Publish(Ev.h, Ev.z, Ev.ok, Ev.m) /\ UNCHANGED ts
         \/ Consume("cb") /\ (IF Ev.k \in Ops /\ IsReq(Ev.k) THEN Answer(Ev.k, Ev.s, Ev.m) ELSE Notify(Ev.k, Ev.s, Ev.m)) /\ UNCHANGED ts
         \/ Consume("cbr") /\ UNCHANGED <<cvars, ts>>
         \/ Consume("quiet") /\ Quiet /\ UNCHANGED <<cvars, ts>>
         \/ Consume("stop") /\ Stop /\ ts' = Ev.ts
         \/ Consume("stopped") /\ Stopped /\ Ev.ts - ts <= 1000 /\ UNCHANGED ts
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<cvars, tid, ts>>
TraceNext == (TStep /\ Pos) \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
