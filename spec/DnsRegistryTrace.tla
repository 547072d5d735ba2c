-------------------------- MODULE DnsRegistryTrace --------------------------
EXTENDS DnsRegistry, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, D
tvars == <<tid, l, D>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Last == Len(Tr.ev)
me == Tr.name
cfg == [T |-> Tr.T, L |-> Tr.L]
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ D = InitD
Consume(k) == l <= Last /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid
Range(s) == {s[i] : i \in 1..Len(s)}
Texts(U) == {x.u : x \in U}
All == {b \in DOMAIN D.reg : TRUE}
Answered == IF Ev.q = <<>>
   THEN /\ Len(Ev.res) = Cardinality(All) /\ {Ev.res[i][1] : i \in 1..Len(Ev.res)} = All
        /\ \A i \in 1..Len(Ev.res) : Range(Ev.res[i][2]) = Texts(D.reg[Ev.res[i][1]].uris) /\ Len(Ev.res[i][2]) = Cardinality(Texts(D.reg[Ev.res[i][1]].uris))
   ELSE /\ Len(Ev.res) = Len(Ev.q)
        /\ \A i \in 1..Len(Ev.q) : LET A == Texts(Answers(D, Ev.q[i])) IN
              /\ Ev.res[i][1] = Ev.q[i].t
              /\ Range(Ev.res[i][2]) = (IF A = {} THEN {"null"} ELSE A)
Announce == Ev.ok /\ Ev.name = me /\ Ev.uri \in OwnUris(D) /\ D' = [D EXCEPT !.adv = @ \ {Ev.uri}, !.last = D.now]
Challenge == /\ Ev.name \in DOMAIN D.reg /\ Ev.name # me /\ Ev.to = D.reg[Ev.name].to
             /\ D' = [D EXCEPT !.reg[Ev.name].chal = D.now]
Settled == /\ D.adv = {}
           /\ \A b \in DOMAIN D.reg \ {me} : D.reg[b].exp >= D.now - cfg.T /\ D.reg[b].chal >= D.now - cfg.T
           /\ (D.addr # {} => D.last >= D.now - 2 * cfg.T)
Visible ==
   \/ Consume("t") /\ D' = [D EXCEPT !.now = Ev.now]
   \/ Consume("bind") /\ D' = Bind(D, me, Ev.a)
   \/ Consume("svc") /\ D' = Service(D, me, Ev.n)
   \/ Consume("reg") /\ D' = Register(D, cfg, Ev.name, Ev.src, Ev.uri)
   \/ Consume("ask") /\ D' = Ask(D)
   \/ Consume("adv") /\ Announce
   \/ Consume("chal") /\ Challenge
   \/ Consume("q") /\ D' = D
   \/ Consume("ans") /\ Ev.ok /\ Ev.sorted /\ Answered /\ D' = D
   \/ Consume("ret") /\ Settled /\ D' = D
   \/ Consume("end") /\ D' = D
Silent == l <= Last /\ Ev.k \in {"chal", "adv", "ret", "q", "ans", "end", "reg", "svc"} /\ Expired(D, me) # {} /\ (\E B \in SUBSET Expired(D, me) : B # {} /\ D' = Forget(D, B)) /\ UNCHANGED <<tid, l>>
Done == l = Last + 1 /\ PrintT(<<"ACC", tid>>) /\ l' = Last + 2 /\ UNCHANGED <<tid, D>>
TraceNext == (Visible /\ Pos) \/ Silent \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
