------------------------------- MODULE Broker -------------------------------
(* The Majordomo broker as seen from its sockets. A state S is a record, every step a function from state to state that *)
(* appends the messages it causes to S.due (one FIFO per destination); a message is sent when it is taken from there.  *)
(*   S.now   virtual time (ms)                                                                                         *)
(*   S.svcs  service name -> [int, desc, wait (workers waiting, longest first), q (requests, one queue per role)]      *)
(*   S.wk    worker id -> [svc, exp, idle, since, hb]  (idle: waiting for a request; hb: last heartbeat sent to it)    *)
(*   S.cl    client id -> [exp, req (accepted but not yet processed requests)]                                         *)
(*   S.subs  canonical topic -> [tp, cl (subscribed clients), n (subscriptions through the publisher socket)]          *)
(*   cfg     [hb, live, ct, roles, filt, name, rbac]                                                                   *)
(* Messages: [p protocol, c command, s service or client, r request id, t topic, d data, e error, b rbac]              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
GET == 1  SET == 2  PARTIAL == 3  FINAL == 4  READY == 5  DISCONNECT == 6  SUBSCRIBE == 7  UNSUBSCRIBE == 8  NOTIFY == 9  HEARTBEAT == 10
PC == "MDPC03"
PW == "MDPW03"
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Without(f, K) == [x \in DOMAIN f \ K |-> f[x]]
NoFun == [x \in {} |-> 0]
Emit(S, dest, m) == [S EXCEPT !.due = Put(@, dest, Append(Get(@, dest, <<>>), m))]
REST == "rest"
ClientDest(c) == IF c = REST THEN "rest" ELSE "router/" \o c
Forever == 2000000000
\* ---------------------------------------------------------------- strings
From(s, i) == SubSeq(s, i, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
NoSlash(s) == IF Starts(s, "/") THEN From(s, 2) ELSE s
\* role of a token "RBAC=<role>,<hash>"; anything else has no role
Commas(s) == {i \in 1..Len(s) : SubSeq(s, i, i) = ","}
RoleOf(b) == IF Starts(b, "RBAC=") /\ Commas(b) # {} THEN SubSeq(b, 6, (CHOOSE i \in Commas(b) : \A j \in Commas(b) : i <= j) - 1) ELSE ""
RoleIndex(cfg, b) == IF \E i \in 1..Len(cfg.roles) : cfg.roles[i] = RoleOf(b)
                     THEN CHOOSE i \in 1..Len(cfg.roles) : cfg.roles[i] = RoleOf(b) /\ \A j \in 1..i - 1 : cfg.roles[j] # RoleOf(b)
                     ELSE Len(cfg.roles)
\* ---------------------------------------------------------------- services
\* a request names a service or something below it: the longest registered name that is the whole name or a prefix ending at a '/'
Fits(name, asked) == LET n == NoSlash(name) a == NoSlash(asked) IN a = n \/ (Starts(a, n) /\ SubSeq(a, Len(n) + 1, Len(n) + 1) = "/")
Candidates(S, asked) == {n \in DOMAIN S.svcs : Fits(n, asked)}
BestService(S, asked) == CHOOSE n \in Candidates(S, asked) : \A k \in Candidates(S, asked) : Len(NoSlash(k)) <= Len(NoSlash(n))
NewService(cfg, desc) == [int |-> FALSE, desc |-> desc, wait |-> <<>>, q |-> [i \in 1..Len(cfg.roles) |-> <<>>]]
Internal == [int |-> TRUE, desc |-> "", wait |-> <<>>, q |-> <<>>]
MMI == {"/mmi.dns", "/mmi.echo", "/mmi.service", "/mmi.openapi"}
InitState(cfg) == [now |-> 0, svcs |-> [n \in MMI |-> Internal], wk |-> NoFun, cl |-> NoFun, subs |-> NoFun, due |-> NoFun, round |-> 0]
\* ---------------------------------------------------------------- workers
Expired(S, w) == S.wk[w].exp < S.now
Gone(S) == {w \in DOMAIN S.wk : S.wk[w].idle /\ Expired(S, w)}
Drop(S, W) == [S EXCEPT !.wk = Without(@, W), !.svcs = [n \in DOMAIN @ |-> [@[n] EXCEPT !.wait = SelectSeq(@, LAMBDA w : w \notin W)]]]
Purge(S) == Drop(S, Gone(S))
HasRequest(v) == \E i \in 1..Len(v.q) : v.q[i] # <<>>
\* highest role first, then first come first served; to the worker waiting longest
RECURSIVE Dispatch(_, _)
Dispatch(S, n) == LET T == Purge(S) v == T.svcs[n] IN
   IF v.int \/ v.wait = <<>> \/ ~HasRequest(v) THEN T ELSE
   LET i == CHOOSE i \in 1..Len(v.q) : v.q[i] # <<>> /\ \A j \in 1..i - 1 : v.q[j] = <<>>
       x == Head(v.q[i])  w == Head(v.wait)
   IN Dispatch(Emit([T EXCEPT !.svcs[n].q[i] = Tail(@), !.svcs[n].wait = Tail(@), !.wk[w].idle = FALSE], "router/" \o w,
                    [x.m EXCEPT !.p = PW, !.s = x.from]), n)
Waiting(cfg, S, w) == LET n == S.wk[w].svc IN
   Dispatch([S EXCEPT !.svcs[n].wait = IF S.wk[w].idle THEN @ ELSE Append(@, w),
                      !.wk[w].idle = TRUE, !.wk[w].exp = S.now + cfg.hb * cfg.live, !.wk[w].since = IF S.wk[w].idle THEN @ ELSE S.now], n)
Disconnect(cfg, svc, d) == [p |-> PW, c |-> DISCONNECT, s |-> svc, r |-> "", t |-> "/", d |-> d, e |-> "", b |-> cfg.rbac]
\* ---------------------------------------------------------------- subscriptions
Active(S) == {z \in DOMAIN S.subs : S.subs[z].cl # {} \/ S.subs[z].n > 0}
Matches(cfg, note, sub) == note.svc = sub.svc /\ \A i \in 1..Len(sub.par) : sub.par[i][1] \in cfg.filt => \E j \in 1..Len(note.par) : note.par[j] = sub.par[i]
RECURSIVE Fan(_, _, _)
Fan(S, D, m) == IF D = {} THEN S ELSE LET d == CHOOSE d \in D : TRUE IN Fan(Emit(S, d[1], m), D \ {d}, m)
Notify(cfg, S, m, tp) == LET hit == {z \in Active(S) : Matches(cfg, tp, S.subs[z].tp)} IN
   Fan(S, {<<"xpub/" \o z, z>> : z \in hit} \cup UNION {{<<IF c = REST THEN "rest/" \o z ELSE "router/" \o c, z>> : c \in S.subs[z].cl} : z \in hit}, m)
NoSub(tp) == [tp |-> tp, cl |-> {}, n |-> 0]
Subscribe(S, c, tp) == [S EXCEPT !.subs = Put(@, tp.z, [Get(@, tp.z, NoSub(tp)) EXCEPT !.cl = @ \cup {c}])]
Unsubscribe(S, c, tp) == IF tp.z \in DOMAIN S.subs THEN [S EXCEPT !.subs[tp.z].cl = @ \ {c}] ELSE S
XSub(S, on, tp) == LET s == Get(S.subs, tp.z, NoSub(tp)) IN [S EXCEPT !.subs = Put(@, tp.z, [s EXCEPT !.n = IF on THEN @ + 1 ELSE IF @ > 0 THEN @ - 1 ELSE 0])]
\* ---------------------------------------------------------------- what arrives
Request(cfg, S, c, m) == LET x == Get(S.cl, c, [exp |-> 0, req |-> <<>>]) IN
   [S EXCEPT !.cl = Put(@, c, [exp |-> IF c = REST \/ cfg.ct = 0 THEN Forever ELSE S.now + cfg.ct, req |-> Append(x.req, m)])]
FromClient(cfg, S, c, m, tp) ==
   CASE m.c \in {GET, SET} -> Request(cfg, S, c, m)
     [] m.c = SUBSCRIBE /\ tp.ok -> Subscribe(S, c, tp)
     [] m.c = UNSUBSCRIBE /\ tp.ok -> Unsubscribe(S, c, tp)
     [] OTHER -> S
\* a worker that the broker does not know (any more) is told so, with something else than the text that stops a worker for good
FromWorker(cfg, S, w, m, tp) == LET known == w \in DOMAIN S.wk IN
   CASE m.c = READY -> LET n == IF known THEN S.wk[w].svc ELSE m.s
                           T == [S EXCEPT !.svcs = Put(@, m.s, Get(@, m.s, NewService(cfg, m.d))),
                                          !.wk = IF known THEN @ ELSE Put(@, w, [svc |-> n, exp |-> 0, idle |-> FALSE, since |-> S.now, hb |-> -1])]
                       IN Waiting(cfg, T, w)
     [] m.c = DISCONNECT -> IF known THEN Drop(S, {w}) ELSE S
     [] m.c \in {PARTIAL, FINAL} -> IF ~known THEN Emit(S, "router/" \o w, Disconnect(cfg, m.s, "*"))
          ELSE LET T == IF m.s \in DOMAIN S.cl THEN Emit(S, ClientDest(m.s), [m EXCEPT !.p = PC, !.s = S.wk[w].svc]) ELSE S
               IN IF m.c = FINAL THEN Waiting(cfg, T, w) ELSE [T EXCEPT !.wk[w].exp = S.now + cfg.hb * cfg.live]
     [] m.c = NOTIFY /\ tp.ok -> Notify(cfg, S, [m EXCEPT !.p = PC, !.c = FINAL, !.s = IF known THEN S.wk[w].svc ELSE @], tp)
     [] m.c = HEARTBEAT -> IF known THEN [S EXCEPT !.wk[w].exp = S.now + cfg.hb * cfg.live] ELSE Emit(S, "router/" \o w, Disconnect(cfg, m.s, "*"))
     [] OTHER -> S
Receive(cfg, S, src, m, tp) == IF m.p = PC THEN FromClient(cfg, S, src, m, tp) ELSE IF m.p = PW THEN FromWorker(cfg, S, src, m, tp) ELSE S
\* ---------------------------------------------------------------- what the broker does with an accepted request
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
Unknown(cfg, m) == [m EXCEPT !.c = FINAL, !.t = "/mmi.service", !.d = "", !.e = "unknown service (error 501): '" \o m.s \o "'", !.b = cfg.rbac]
\* names: the registered services in order (strings cannot be compared in TLA+: the recorded order is checked to be a permutation)
Answer(S, n, m, names) == CASE n = "/mmi.echo" -> m
   [] n = "/mmi.service" -> [m EXCEPT !.c = FINAL, !.d = IF m.d = "" THEN Join(names) ELSE IF m.d \in DOMAIN S.svcs THEN "200" ELSE "404"]
   [] n = "/mmi.openapi" -> IF m.d \in DOMAIN S.svcs THEN [m EXCEPT !.c = FINAL, !.d = S.svcs[m.d].desc, !.e = ""] ELSE [m EXCEPT !.c = FINAL, !.d = "", !.e = "Requested invalid service '" \o m.d \o "'"]
   [] n = "/mmi.dns" -> [m EXCEPT !.c = FINAL, !.d = "*"]
Process(cfg, S, c, names) == LET m == Head(S.cl[c].req) T == [S EXCEPT !.cl[c].req = Tail(@)] IN
   IF Candidates(S, m.s) = {} THEN Emit(T, ClientDest(c), Unknown(cfg, m))
   ELSE LET n == BestService(S, m.s) IN
        IF S.svcs[n].int THEN Emit(T, ClientDest(c), Answer(S, n, m, names))
        ELSE Dispatch([T EXCEPT !.svcs[n].q[RoleIndex(cfg, m.b)] = Append(@, [from |-> c, m |-> m])], n)
ExpiredClients(S) == {c \in DOMAIN S.cl : S.cl[c].exp < S.now}
PurgeClients(S) == [S EXCEPT !.cl = Without(@, ExpiredClients(S))]
Cleanup(cfg, S) == LET RECURSIVE Each(_, _)
                       Each(T, W) == IF W = {} THEN T ELSE LET w == CHOOSE w \in W : TRUE IN Each(Emit(T, "router/" \o w, Disconnect(cfg, T.wk[w].svc, "broker shutdown")), W \ {w})
                   IN Drop(Each(S, DOMAIN S.wk), DOMAIN S.wk)
\* heartbeats: at most one per interval and worker, and never silence for an interval towards a worker that waits
HeartbeatAllowed(cfg, S, w) == /\ w \in DOMAIN S.wk /\ S.wk[w].idle /\ ~Expired(S, w)
                               /\ (S.now - S.round >= cfg.hb \/ (S.now = S.round /\ S.wk[w].hb < S.now))
HeartbeatMsg(cfg, S, w) == [p |-> PW, c |-> HEARTBEAT, s |-> S.wk[w].svc, r |-> "", t |-> "/", d |-> "", e |-> "", b |-> cfg.rbac]
Max2(a, b) == IF a > b THEN a ELSE b
\* nothing is left undone when the broker goes to sleep
Settled(cfg, S) == /\ \A d \in DOMAIN S.due : S.due[d] = <<>>
                   /\ \A c \in DOMAIN S.cl : S.cl[c].req = <<>>
                   /\ Gone(S) = {} /\ ExpiredClients(S) = {}
                   /\ \A n \in DOMAIN S.svcs : S.svcs[n].wait = <<>> \/ ~HasRequest(S.svcs[n])
                   /\ \A w \in DOMAIN S.wk : S.wk[w].idle => S.now - Max2(S.wk[w].hb, S.wk[w].since) < cfg.hb
=============================================================================
