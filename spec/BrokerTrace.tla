---------------------------- MODULE BrokerTrace ----------------------------
(* Recorded histories of the real broker: every message it read, every message it sent, the upstream subscriptions it *)
(* made, the passing of (virtual) time and the moments it went to sleep, each explained by a step of Broker.          *)
EXTENDS Broker, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, S, up
tvars == <<tid, l, S, up>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Last == Len(Tr.ev)
cfg == [hb |-> Tr.hb, live |-> Tr.live, ct |-> Tr.ct, roles |-> Tr.roles, filt |-> {Tr.filt[i] : i \in 1..Len(Tr.filt)}, name |-> "/broker", rbac |-> "RBAC=ADMIN,abcdef12345"]
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ S = InitState(cfg) /\ up = {}
Consume(k) == l <= Last /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid
Same(m, x) == IF m.d # "*" THEN m = x
              ELSE [m EXCEPT !.d = x.d] = x /\ (m.c = DISCONNECT => x.d # "broker shutdown")
Announce(e) == Ev.to = "xpub//mmi.service" /\ Ev.m.c = 0 /\ Ev.m.s = "/mmi.service" /\ Ev.m.t = "/mmi.service" \* news about services: may be sent
Take == LET q == Get(S.due, Ev.to, <<>>) IN q # <<>> /\ Same(Head(q), Ev.m) /\ S' = [S EXCEPT !.due[Ev.to] = Tail(@)]
Beat == /\ Ev.m.p = PW /\ Ev.m.c = HEARTBEAT /\ Starts(Ev.to, "router/")
        /\ LET w == From(Ev.to, 8) IN HeartbeatAllowed(cfg, S, w) /\ Ev.m = HeartbeatMsg(cfg, S, w) /\ S' = [S EXCEPT !.wk[w].hb = S.now, !.round = S.now]
Visible ==
   \/ Consume("t") /\ S' = [S EXCEPT !.now = Ev.now] /\ UNCHANGED up
   \/ Consume("rx") /\ S' = Receive(cfg, S, Ev.src, Ev.m, Ev.tp) /\ UNCHANGED up
   \/ Consume("bad") /\ UNCHANGED <<S, up>>
   \/ Consume("xp") /\ S' = (IF Ev.tp.ok THEN XSub(S, Ev.on, Ev.tp) ELSE S) /\ UNCHANGED up
   \/ Consume("tx") /\ (Take \/ Beat \/ (Announce(Ev) /\ S' = S)) /\ UNCHANGED up
   \/ Consume("up") /\ Ev.on = (Ev.z \notin up) /\ up' = (IF Ev.on THEN up \cup {Ev.z} ELSE up \ {Ev.z}) /\ S' = S
   \/ Consume("ret") /\ Settled(cfg, S) /\ up = Active(S) /\ UNCHANGED <<S, up>>
   \/ Consume("clean") /\ S' = Cleanup(cfg, S) /\ UNCHANGED up
   \/ Consume("end") /\ (\A d \in DOMAIN S.due : S.due[d] = <<>>) /\ UNCHANGED <<S, up>>
\* steps that leave no event: an accepted request is looked at, workers and clients that are overdue are forgotten
IsPerm(ns, D) == Len(ns) = Cardinality(D) /\ {ns[i] : i \in 1..Len(ns)} = D
Names == IF IsPerm(Tr.names, DOMAIN S.svcs) THEN Tr.names ELSE SelectSeq(Tr.names, LAMBDA n : n \in DOMAIN S.svcs)
Silent == /\ l <= Last /\ Ev.k # "t" /\ UNCHANGED <<tid, l, up>>
          /\ \/ \E c \in DOMAIN S.cl : S.cl[c].req # <<>> /\ S' = Process(cfg, S, c, Names)
             \/ Gone(S) # {} /\ S' = Purge(S)
             \/ ExpiredClients(S) # {} /\ S' = PurgeClients(S)
Done == l = Last + 1 /\ PrintT(<<"ACC", tid>>) /\ l' = Last + 2 /\ UNCHANGED <<tid, S, up>>
TraceNext == (Visible /\ Pos) \/ Silent \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
