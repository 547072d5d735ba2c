------------------------------- MODULE Worker -------------------------------
(* A Majordomo worker as seen from its sockets and its user. A state S is a record:                                     *)
(*   S.now   virtual time (ms)                                                                                         *)
(*   S.mode  "connect" (has to connect and announce itself), "run", "call" (a request has been accepted, its handler   *)
(*           has to be called), "busy" (the handler runs), "sleep" (waits before it connects again), "over"            *)
(*   S.conn  its connection, S.old the connections it gave up                                                          *)
(*   S.live  how many heartbeat intervals of silence it still accepts, S.hbAt when its next heartbeat is due           *)
(*   S.subs  what the broker subscribed: canonical topic -> topic                                                      *)
(*   S.q     notifications handed over by threads of the user and not yet looked at                                    *)
(*   S.due   messages it has to send (FIFO)                                                                            *)
(*   cfg     [name, desc, hb, live, rec, filt, roles (sequence of <<role, rights>>), slack]                            *)
EXTENDS Broker
Token == "RBAC=NONE,"
Own(cfg, c, d) == [p |-> PW, c |-> c, s |-> cfg.name, r |-> "", t |-> "/", d |-> d, e |-> "", b |-> Token]
WorkerInit(cfg) == [now |-> 0, mode |-> "connect", conn |-> "", old |-> {}, live |-> 0, hbAt |-> 0, wake |-> 0, subs |-> NoFun, q |-> <<>>, due |-> <<>>, req |-> Own(cfg, GET, ""), stop |-> FALSE, grace |-> FALSE]
\* ---------------------------------------------------------------- who may do what
Rights(cfg, b) == LET I == {i \in 1..Len(cfg.roles) : cfg.roles[i][1] = RoleOf(b)} IN cfg.roles[IF I = {} THEN Len(cfg.roles) ELSE CHOOSE i \in I : \A j \in I : i <= j][2]
MayGet(cfg, b) == Rights(cfg, b) \in {"RW", "RO"}
MaySet(cfg, b) == Rights(cfg, b) \in {"RW", "WO"}
ReplyTo(m) == [m EXCEPT !.c = FINAL, !.d = "", !.e = ""]
Denied(m) == [ReplyTo(m) EXCEPT !.e = (IF m.c = GET THEN "GET" ELSE "SET") \o " access denied to role '" \o RoleOf(m.b) \o "'"]
\* ---------------------------------------------------------------- the connection
Connected(cfg, S, id) == [S EXCEPT !.mode = "run", !.conn = id, !.old = @ \cup {S.conn}, !.live = cfg.live, !.hbAt = S.now + cfg.hb, !.subs = NoFun]
MayAnnounce(S, id) == id # S.conn /\ id \notin S.old /\ (S.mode = "connect" \/ (S.mode = "sleep" /\ S.now >= S.wake))
Silence(cfg, S) == S.mode = "run" /\ S.due = <<>> /\ (cfg.slack \/ (S.now >= S.hbAt /\ S.live = 1))
GiveUp(cfg, S) == [S EXCEPT !.mode = "sleep", !.wake = S.now + cfg.rec]
MayBeat(cfg, S) == S.mode = "run" /\ S.due = <<>> /\ (cfg.slack \/ (S.now >= S.hbAt /\ S.live > 1))
Beaten(cfg, S) == [S EXCEPT !.live = IF cfg.slack THEN @ ELSE @ - 1, !.hbAt = S.now + cfg.hb]
\* at the very moment it is due the heartbeat may be sent without counting the interval as silent
MayBeatEarly(cfg, S) == S.mode = "run" /\ S.due = <<>> /\ S.now = S.hbAt
BeatenEarly(cfg, S) == [S EXCEPT !.hbAt = S.now + cfg.hb]
\* a stop by another thread may be noticed only after one more rest (grace)
MayRest(cfg, S) == S.mode = "run" /\ S.due = <<>> /\ (\A i \in 1..Len(S.q) : ~S.q[i].in) /\ (~S.stop \/ S.grace) /\ (cfg.slack \/ S.now <= S.hbAt)
\* ---------------------------------------------------------------- what arrives from the broker
MayReceive(S) == S.mode = "run" /\ S.due = <<>>
FromBroker(cfg, S0, m) == LET S == [S0 EXCEPT !.live = cfg.live] IN
   IF m.p # PW THEN S
   ELSE IF m.c \in {GET, SET} THEN
      IF (m.c = GET /\ MayGet(cfg, m.b)) \/ (m.c = SET /\ MaySet(cfg, m.b)) THEN [S EXCEPT !.mode = "call", !.req = m] ELSE [S EXCEPT !.due = <<Denied(m)>>]
   ELSE IF m.c = DISCONNECT THEN IF m.d = "broker shutdown" THEN [S EXCEPT !.stop = TRUE] ELSE [S EXCEPT !.mode = "connect"]
   ELSE S
Called(S) == [S EXCEPT !.mode = "busy"]
\* the handler is done: exactly one reply, whatever it did
Answered(S, m) == [S EXCEPT !.mode = "run", !.due = <<m>>]
OnSubscription(cfg, S, on, tp) == IF tp.svc # cfg.name THEN S ELSE [S EXCEPT !.subs = IF on THEN Put(@, tp.z, tp) ELSE Without(@, {tp.z})]
\* ---------------------------------------------------------------- notifications
NoteMsg(cfg, n) == [p |-> PW, c |-> NOTIFY, s |-> cfg.name, r |-> n.r, t |-> n.t, d |-> n.d, e |-> n.e, b |-> Token]
\* a notification is handed over by thread n.th; n.in tells that notify() has returned
Notified(S, n) == [S EXCEPT !.q = Append(@, n)]
Handed(S, th) == [S EXCEPT !.q = [i \in 1..Len(@) |-> IF @[i].th = th THEN [@[i] EXCEPT !.in = TRUE] ELSE @[i]]]
\* they are looked at in the order of each thread
Nexts(S) == {i \in 1..Len(S.q) : \A j \in 1..i - 1 : S.q[j].th # S.q[i].th}
Wanted(cfg, S, tp) == tp.ok /\ \E z \in DOMAIN S.subs : Matches(cfg, tp, S.subs[z])
NoteRead(cfg, S, i) == LET n == S.q[i] IN [S EXCEPT !.q = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.due = IF Wanted(cfg, S, n.tp) THEN <<NoteMsg(cfg, n)>> ELSE <<>>]
=============================================================================
