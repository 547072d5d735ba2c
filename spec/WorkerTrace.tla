---------------------------- MODULE WorkerTrace ----------------------------
(* Recorded histories of the real worker: each event is explained by a step of Worker.                                  *)
EXTENDS Worker, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, S,
          txt \* text that the error of the reply to a failed request has to contain
Tr == Traces[tid]
Ev == Tr.ev[l]
Last == Len(Tr.ev)
\* slack: time passed while the worker could run, so that its timing cannot be judged
cfg == [slack |-> Tr.slack, name |-> Tr.name, desc |-> Tr.desc, hb |-> Tr.hb, live |-> Tr.live, rec |-> Tr.rec, roles |-> Tr.roles, filt |-> {Tr.filt[i] : i \in 1..Len(Tr.filt)}]
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ S = WorkerInit(cfg) /\ txt = ""
Consume(k) == l <= Last /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid
Contains(s, w) == \E i \in 0..Len(s) - Len(w) : SubSeq(s, i + 1, i + Len(w)) = w
\* what the handler left behind
Outcome == CASE Ev.o = "reply" -> [ReplyTo(S.req) EXCEPT !.d = Ev.d, !.e = Ev.e, !.t = Ev.t] [] OTHER -> [ReplyTo(S.req) EXCEPT !.e = "*"]
Text == IF Ev.o = "throw" THEN Ev.w ELSE "Caught unexpected exception"
Take == /\ S.due # <<>> /\ Ev.on = S.conn /\ S' = [S EXCEPT !.due = Tail(@)]
        /\ LET m == Head(S.due) IN IF m.e = "*" THEN [m EXCEPT !.e = Ev.m.e] = Ev.m /\ Contains(Ev.m.e, cfg.name) /\ Contains(Ev.m.e, txt) ELSE m = Ev.m
Announce == S.due = <<>> /\ MayAnnounce(S, Ev.on) /\ Ev.m = Own(cfg, READY, cfg.desc) /\ S' = Connected(cfg, S, Ev.on)
Beat == Ev.on = S.conn /\ Ev.m = Own(cfg, HEARTBEAT, "") /\ ((MayBeat(cfg, S) /\ S' = Beaten(cfg, S)) \/ (MayBeatEarly(cfg, S) /\ S' = BeatenEarly(cfg, S)))
Bye == Ev.on = S.conn /\ S.stop /\ S.mode = "run" /\ S.due = <<>> /\ Ev.m = Own(cfg, DISCONNECT, "") /\ S' = [S EXCEPT !.mode = "over"]
Visible ==
   \/ Consume("t") /\ S' = [S EXCEPT !.now = Ev.now] /\ UNCHANGED txt
   \/ Consume("tx") /\ (Take \/ Announce \/ Beat \/ Bye) /\ UNCHANGED txt
   \/ Consume("rx") /\ MayReceive(S) /\ S' = FromBroker(cfg, S, Ev.m) /\ UNCHANGED txt
   \/ Consume("bad") /\ MayReceive(S) /\ UNCHANGED <<S, txt>>
   \/ Consume("call") /\ S.mode = "call" /\ Ev.q = S.req /\ Ev.r = ReplyTo(S.req) /\ S' = Called(S) /\ UNCHANGED txt
   \/ Consume("nop") /\ UNCHANGED <<S, txt>>
   \/ Consume("done") /\ S.mode = "busy" /\ S' = Answered(S, Outcome) /\ txt' = (IF Ev.o = "reply" THEN "" ELSE Text)
   \/ Consume("note") /\ S' = Notified(S, [d |-> Ev.d, e |-> Ev.e, t |-> Ev.t, r |-> "r", tp |-> Ev.tp, th |-> Ev.th, in |-> FALSE]) /\ UNCHANGED txt
   \/ Consume("noted") /\ S' = Handed(S, Ev.th) /\ UNCHANGED txt
   \/ Consume("nrx") /\ MayReceive(S) /\ (\E i \in Nexts(S) : S.q[i].d = Ev.d /\ S' = NoteRead(cfg, S, i)) /\ UNCHANGED txt
   \/ Consume("sub") /\ MayReceive(S) /\ S' = OnSubscription(cfg, S, Ev.on, Ev.tp) /\ UNCHANGED txt
   \/ Consume("poll") /\ MayRest(cfg, S) /\ Ev.ms >= 0 /\ Ev.ms <= cfg.hb /\ (Ev.subs = <<"*">> \/ {Ev.subs[i] : i \in 1..Len(Ev.subs)} = DOMAIN S.subs) /\ S' = [S EXCEPT !.grace = FALSE] /\ UNCHANGED txt
   \/ Consume("stop") /\ S' = [S EXCEPT !.stop = TRUE, !.grace = Ev.late] /\ UNCHANGED txt
   \/ Consume("end") /\ S.mode = "over" /\ UNCHANGED <<S, txt>>
\* leaves no event: the broker has been silent for too long
Silent == l <= Last /\ UNCHANGED <<tid, l, txt>> /\ Silence(cfg, S) /\ S' = GiveUp(cfg, S)
Done == l = Last + 1 /\ PrintT(<<"ACC", tid>>) /\ l' = Last + 2 /\ UNCHANGED <<tid, S, txt>>
TraceNext == (Visible /\ Pos) \/ Silent \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, S, txt>>
=============================================================================
