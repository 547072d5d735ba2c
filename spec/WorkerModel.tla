---------------------------- MODULE WorkerModel ----------------------------
(* Exhaustive exploration of Worker with a small environment: a broker that sends requests with several tokens,         *)
(* subscribes, is silent, disconnects or shuts down; a user whose handler answers or fails and who notifies and stops.  *)
EXTENDS Worker
CONSTANTS MaxTime, MaxReq, MaxNote, Tokens
VARIABLES S, sent, called, acc, den, nreq, nnote, idle
vars == <<S, sent, called, acc, den, nreq, nnote, idle>>
cfg == [slack |-> FALSE, name |-> "/s", desc |-> "D", hb |-> 2, live |-> 2, rec |-> 1, filt |-> {"x"}, roles |-> <<<<"ADMIN", "RW">>, <<"R", "RO">>, <<"W", "WO">>, <<"ANY", "NONE">>>>]
Tp(x) == [ok |-> TRUE, svc |-> "/s", par |-> IF x = "" THEN <<>> ELSE <<<<"x", x>>>>, z |-> x]
Topics == {Tp(""), Tp("1")}
Req(i, c, b) == [p |-> PW, c |-> c, s |-> "c", r |-> ToString(i), t |-> "/s", d |-> "q", e |-> "", b |-> b]
Init == S = WorkerInit(cfg) /\ sent = [rep |-> NoFun, notes |-> {}, on |-> "", over |-> FALSE, ok |-> TRUE] /\ called = <<>> /\ acc = {} /\ den = {} /\ nreq = 0 /\ nnote = 0 /\ idle = 0
Keep == UNCHANGED <<sent, called, acc, den, nreq, nnote, idle>>
Tick == /\ S.now < MaxTime /\ S.mode \in {"run", "sleep", "busy"} /\ S' = [S EXCEPT !.now = @ + 1]
        /\ (S.mode = "run" => S.due = <<>> /\ ~S.stop /\ (S.now < S.hbAt \/ S.now = S.hbAt)) /\ (S.mode = "sleep" => S.now < S.wake)
        /\ idle' = idle + 1 /\ UNCHANGED <<sent, called, acc, den, nreq, nnote>>
Recv(m) == MayReceive(S) /\ ~S.stop /\ S.now <= S.hbAt /\ S' = FromBroker(cfg, S, m) /\ idle' = 0
Broker1 == \/ \E c \in {GET, SET}, b \in Tokens : nreq < MaxReq /\ Recv(Req(nreq + 1, c, b)) /\ nreq' = nreq + 1
              /\ acc' = (IF S'.mode = "call" THEN acc \cup {ToString(nreq + 1)} ELSE acc) /\ den' = (IF S'.mode # "call" THEN den \cup {ToString(nreq + 1)} ELSE den) /\ UNCHANGED <<sent, called, nnote>>
           \/ Recv(Own(cfg, HEARTBEAT, "")) /\ UNCHANGED <<sent, called, acc, den, nreq, nnote>>
           \/ \E d \in {"broker shutdown", ""} : Recv(Own(cfg, DISCONNECT, d)) /\ UNCHANGED <<sent, called, acc, den, nreq, nnote>>
           \/ \E on \in BOOLEAN, tp \in Topics : MayReceive(S) /\ S' = OnSubscription(cfg, S, on, tp) /\ Keep
User == \/ S.mode = "call" /\ S' = Called(S) /\ called' = Append(called, S.req.r) /\ UNCHANGED <<sent, acc, den, nreq, nnote, idle>>
        \/ \E x \in {[ReplyTo(S.req) EXCEPT !.d = "ok"], [ReplyTo(S.req) EXCEPT !.e = "failed"]} : S.mode = "busy" /\ S' = Answered(S, x) /\ Keep
        \/ \E tp \in Topics : nnote < MaxNote /\ nnote' = nnote + 1 /\ S' = Notified(S, [d |-> ToString(nnote), e |-> "", t |-> tp.z, r |-> "", tp |-> tp, th |-> 0, in |-> TRUE]) /\ UNCHANGED <<sent, called, acc, den, nreq, idle>>
        \/ ~S.stop /\ S' = [S EXCEPT !.stop = TRUE] /\ Keep
\* of what has been sent only this is kept: who got replies (and whether with an error), which notifications, the last connection and whether the order was right
Send(m) == /\ sent' = [rep |-> IF m.c = FINAL THEN Put(sent.rep, m.r, Get(sent.rep, m.r, 0) + (IF m.e = "" \/ m.d # "" THEN 1 ELSE 10)) ELSE sent.rep,
                       notes |-> IF m.c = NOTIFY THEN sent.notes \cup {m.d} ELSE sent.notes,
                       on |-> S'.conn, over |-> m.c = DISCONNECT,
                       ok |-> sent.ok /\ ~sent.over /\ ((S'.conn # sent.on) <=> (m.c = READY)) /\ (m.c = NOTIFY => m.d \notin sent.notes)]
           /\ UNCHANGED <<called, acc, den, nreq, nnote, idle>>
Worker1 == \/ S.due # <<>> /\ S' = [S EXCEPT !.due = Tail(@)] /\ Send(Head(S.due))
           \/ S.due = <<>> /\ Cardinality(S.old) < 3 /\ LET id == ToString(Cardinality(S.old) + 1) IN MayAnnounce(S, id) /\ S' = Connected(cfg, S, id) /\ Send(Own(cfg, READY, cfg.desc))
           \/ S.now > S.hbAt /\ MayBeat(cfg, S) /\ S' = Beaten(cfg, S) /\ Send(Own(cfg, HEARTBEAT, ""))
           \/ Silence(cfg, S) /\ S' = GiveUp(cfg, S) /\ Keep
           \/ MayReceive(S) /\ S.q # <<>> /\ (\E i \in Nexts(S) : S' = NoteRead(cfg, S, i)) /\ Keep
           \/ S.stop /\ S.mode = "run" /\ S.due = <<>> /\ S' = [S EXCEPT !.mode = "over"] /\ Send(Own(cfg, DISCONNECT, ""))
Next == Tick \/ Broker1 \/ User \/ Worker1
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- what it guarantees
Replies(r) == Get(sent.rep, r, 0)
AtMostOneReply == \A i \in 1..nreq : Replies(ToString(i)) \in {0, 1, 10}
EveryRequestAnswered == (S.mode \in {"run", "over"} /\ S.due = <<>>) => \A i \in 1..nreq : Replies(ToString(i)) # 0
DeniedNeverHandled == \A i \in 1..Len(called) : called[i] \in acc /\ \A j \in 1..Len(called) : i # j => called[i] # called[j]
OnlyWithRights == \A r \in den : Replies(r) \in {0, 10} \* refused: an error and no data
Orderly == sent.ok \* READY first and only first on a connection, DISCONNECT last, no notification twice
\* with no message from the broker it does not wait longer than liveness heartbeats and the reconnect pause
NoticesSilence == S.mode = "run" => S.hbAt - S.now <= cfg.hb
GaveUpForAReason == S.mode = "sleep" => idle >= cfg.hb
=============================================================================
