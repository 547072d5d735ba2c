---------------------------- MODULE DnsRegistry ----------------------------
(* The broker's registry of addresses (mmi.dns). D = [now, addr (own addresses), svcs, reg (broker -> [to, uris, exp,  *)
(* chal]), adv (own addresses still to be announced), last (last announcement)]; a URI is [u, sch, path].              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
NoSlash(s) == IF Starts(s, "/") THEN SubSeq(s, 2, Len(s)) ELSE s
MMI == {"/mmi.dns", "/mmi.echo", "/mmi.service", "/mmi.openapi"}
At(a, n) == [u |-> a.u \o "/" \o NoSlash(n), sch |-> a.sch, path |-> NoSlash(n)]
OwnUris(D) == D.addr \cup {At(a, n) : a \in D.addr, n \in D.svcs}
InitD == [now |-> 0, addr |-> {}, svcs |-> MMI, reg |-> [x \in {} |-> 0], adv |-> {}, last |-> 0]
Entry(D, b, to) == IF b \in DOMAIN D.reg THEN D.reg[b] ELSE [to |-> to, uris |-> {}, exp |-> 0, chal |-> D.now]
Know(D, b, to, U, exp) == [D EXCEPT !.reg = Put(@, b, [Entry(D, b, to) EXCEPT !.uris = @ \cup U, !.exp = exp])]
\* own addresses and services: known at once, and announced to the name service
Bind(D, me, a) == LET T == [D EXCEPT !.addr = @ \cup {a}] IN [Know(T, me, "", OwnUris(T), D.now) EXCEPT !.adv = OwnUris(T)]
Service(D, me, n) == LET T == [D EXCEPT !.svcs = @ \cup {n}]
                         new == {At(a, n) : a \in D.addr}
                     IN IF D.addr = {} THEN T ELSE [Know(T, me, "", new, D.now) EXCEPT !.adv = @ \cup new]
Register(D, cfg, b, to, u) == IF u.sch = "" THEN D ELSE Know(D, b, to, {u}, D.now + cfg.T * cfg.L)
Ask(D) == [D EXCEPT !.adv = OwnUris(D)]
Expired(D, me) == {b \in DOMAIN D.reg : b # me /\ D.reg[b].exp < D.now}
Forget(D, B) == [D EXCEPT !.reg = [b \in DOMAIN @ \ B |-> @[b]]]
\* a query names a path (beginning), and possibly a scheme
Answers(D, q) == {x \in UNION {D.reg[b].uris : b \in DOMAIN D.reg} : (q.sch = "" \/ q.sch = x.sch) /\ Starts(x.path, q.path)}
=============================================================================
