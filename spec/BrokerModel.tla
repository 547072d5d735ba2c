---------------------------- MODULE BrokerModel ----------------------------
(* The broker between clients that ask, workers that serve (and may leave, be silent, or come back) and time:         *)
(* the guarantees that follow from the transitions of Broker, for every order of messages.                            *)
EXTENDS Broker
CONSTANTS Clients, Workers, MaxReq, MaxTime, Asked, Tokens
cfg == [hb |-> 1, live |-> 1, ct |-> 0, roles |-> <<"ADMIN", "ANY">>, filt |-> {}, name |-> "/broker", rbac |-> "rbac"]
SvcOf == [w \in Workers |-> IF w = "w1" THEN "/a" ELSE "/a/b"]
VARIABLES S, n, st, got, back, order, told
vars == <<S, n, st, got, back, order, told>>
\* st: what each worker thinks ("out", "idle", "busy"); got: requests it holds; back: replies per client; order: order of acceptance
Init == /\ S = InitState(cfg) /\ n = 0 /\ st = [w \in Workers |-> "out"] /\ got = [w \in Workers |-> <<>>]
        /\ back = [c \in Clients |-> <<>>] /\ order = <<>> /\ told = 0
Msg(p, c, s, r, b) == [p |-> p, c |-> c, s |-> s, r |-> r, t |-> "/", d |-> "", e |-> "", b |-> b]
Tp == [ok |-> FALSE]
Ask(c) == /\ n < MaxReq /\ n' = n + 1
          /\ \E s \in Asked, b \in Tokens :
                /\ S' = Receive(cfg, S, c, Msg(PC, GET, s, ToString(n + 1), b), Tp)
                /\ order' = Append(order, [from |-> c, s |-> s, b |-> b])
          /\ UNCHANGED <<st, got, back, told>>
Work == \E c \in Clients : c \in DOMAIN S.cl /\ S.cl[c].req # <<>> /\ S' = Process(cfg, S, c, <<>>) /\ UNCHANGED <<n, st, got, back, order, told>>
Ready(w) == st[w] = "out" /\ S' = Receive(cfg, S, w, Msg(PW, READY, SvcOf[w], "", ""), Tp) /\ st' = [st EXCEPT ![w] = "idle"] /\ UNCHANGED <<n, got, back, order, told>>
Reply(w) == /\ got[w] # <<>> /\ S' = Receive(cfg, S, w, [Head(got[w]) EXCEPT !.c = FINAL], Tp)
            /\ got' = [got EXCEPT ![w] = Tail(@)] /\ st' = [st EXCEPT ![w] = IF @ = "busy" THEN "idle" ELSE @] /\ UNCHANGED <<n, back, order, told>>
Beat(w) == st[w] # "out" /\ S.now > 0 /\ Get(S.due, "router/" \o w, <<>>) = <<>> /\ S' = Receive(cfg, S, w, Msg(PW, HEARTBEAT, SvcOf[w], "", ""), Tp) /\ UNCHANGED <<n, st, got, back, order, told>>
Leave(w) == /\ st[w] = "idle" /\ got[w] = <<>> /\ S' = Receive(cfg, S, w, Msg(PW, DISCONNECT, SvcOf[w], "", ""), Tp)
            /\ told < 1 /\ told' = told + 1 /\ st' = [st EXCEPT ![w] = "out"] /\ UNCHANGED <<n, got, back, order>>
Deliver == \E d \in DOMAIN S.due : /\ S.due[d] # <<>>
   /\ LET m == Head(S.due[d]) who == From(d, 8) IN
      /\ S' = [S EXCEPT !.due[d] = Tail(@)]
      /\ IF m.p = PC THEN back' = [back EXCEPT ![who] = Append(@, m)] /\ UNCHANGED <<st, got>>
         ELSE IF m.c = DISCONNECT THEN st' = [st EXCEPT ![who] = "out"] /\ UNCHANGED <<got, back>>
         ELSE got' = [got EXCEPT ![who] = Append(@, m)] /\ st' = [st EXCEPT ![who] = "busy"] /\ UNCHANGED back
   /\ UNCHANGED <<n, order, told>>
Tick == S.now < MaxTime /\ S' = [S EXCEPT !.now = @ + 1] /\ UNCHANGED <<n, st, got, back, order, told>>
Tidy == Gone(S) # {} /\ S' = Purge(S) /\ UNCHANGED <<n, st, got, back, order, told>>
Next == (\E c \in Clients : Ask(c)) \/ Work \/ (\E w \in Workers : Ready(w) \/ Reply(w) \/ Beat(w) \/ Leave(w)) \/ Deliver \/ Tick \/ Tidy
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- guarantees
Id(m) == CHOOSE i \in 1..Len(order) : ToString(i) = m.r
Range(s) == {s[i] : i \in 1..Len(s)}
Due(d) == Get(S.due, d, <<>>)
DueReq(w) == SelectSeq(Due("router/" \o w), LAMBDA m : m.c \in {GET, SET})
\* every reply goes to the client that asked, at most once
RightClient == \A c \in Clients : \A i \in 1..Len(back[c]) : order[Id(back[c][i])].from = c
OnceOnly == \A c \in Clients : \A i, j \in 1..Len(back[c]) : i # j => back[c][i].r # back[c][j].r
\* a request goes to a worker of the longest matching service only
RightWorker == \A w \in Workers : \A i \in 1..Len(got[w]) : Fits(SvcOf[w], order[Id(got[w][i])].s)
\* no request is ever lost while it is in the broker's hands: it waits, is on its way, is with a worker, or was answered (or its holder is gone)
Somewhere(i) == LET id == ToString(i) IN
   Cardinality({c \in DOMAIN S.cl : \E k \in 1..Len(S.cl[c].req) : S.cl[c].req[k].r = id})
   + Cardinality({<<v, q>> \in {<<v, q>> \in (DOMAIN S.svcs) \X {1, 2} : ~S.svcs[v].int} : \E k \in 1..Len(S.svcs[v].q[q]) : S.svcs[v].q[q][k].m.r = id})
   + Cardinality({d \in DOMAIN S.due : \E k \in 1..Len(S.due[d]) : S.due[d][k].r = id})
   + Cardinality({w \in Workers : \E k \in 1..Len(got[w]) : got[w][k].r = id})
   + Cardinality({c \in Clients : \E k \in 1..Len(back[c]) : back[c][k].r = id})
   = 1
ExactlyOnePlace == (told = 0 /\ S.now <= cfg.hb * cfg.live) => \A i \in 1..Len(order) : Somewhere(i)
\* one request at a time per worker that waited for one
OneAtATime == (told = 0 /\ S.now <= cfg.hb * cfg.live) => \A w \in Workers : Len(got[w]) + Len(DueReq(w)) <= 1
\* never a waiting worker next to a waiting request
NoIdling == \A v \in DOMAIN S.svcs : S.svcs[v].wait = <<>> \/ ~HasRequest(S.svcs[v])
\* the waiting lists hold registered workers of that service, each once
Consistent == \A v \in DOMAIN S.svcs : LET q == S.svcs[v].wait IN
   /\ \A i \in 1..Len(q) : q[i] \in DOMAIN S.wk /\ S.wk[q[i]].idle /\ S.wk[q[i]].svc = v
   /\ \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
\* within a service and role, requests keep their order
Ordered == \A v \in DOMAIN S.svcs : \A k \in 1..Len(S.svcs[v].q) : \A c \in Clients :
   LET q == SelectSeq(S.svcs[v].q[k], LAMBDA x : x.from = c) IN \A i \in 1..Len(q) - 1 : Id(q[i].m) < Id(q[i + 1].m)
=============================================================================
