------------------------------- MODULE Client -------------------------------
(* The client side: any number of threads get, set, subscribe and unsubscribe; a request travels to the broker its URI names, the       *)
(* broker's messages come back on connections (requests) and from hosts (subscriptions), in order, and end in callbacks.               *)
(* ops: per call <<kind o, thread th, host h, service s, topic t, data d, st (new, sent, done | on, off), connection c, id r, gone>>   *)
EXTENDS Sequences, FiniteSets, Naturals
VARIABLES ops, replies, notes, phase
cvars == <<ops, replies, notes, phase>>
CInit == ops = <<>> /\ replies = <<>> /\ notes = <<>> /\ phase = "run"
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
Ops == 1..Len(ops)
IsReq(k) == ops[k].o \in {"get", "set"}
\* a thread's calls take effect in their order
InOrder(k) == \A j \in 1..(k - 1) : ops[j].th = ops[k].th => ops[j].st # "new"
Active(h, z) == {k \in Ops : ops[k].o = "sub" /\ ops[k].st = "on" /\ ops[k].h = h /\ ops[k].t = z}
Call(o, th, h, s, t, d) ==
   /\ ops' = Append(IF o # "unsub" THEN ops ELSE [k \in Ops |-> IF ops[k].o = "sub" /\ ops[k].h = h /\ ops[k].t = t THEN [ops[k] EXCEPT !.gone = TRUE] ELSE ops[k]],
                    [o |-> o, th |-> th, h |-> h, s |-> s, t |-> t, d |-> d, st |-> "new", c |-> "", r |-> "", gone |-> FALSE])
   /\ UNCHANGED <<replies, notes, phase>>
\* a request leaves on connection c with an id no other request has
Sent(k, c, r) == /\ k \in Ops /\ IsReq(k) /\ ops[k].st = "new" /\ InOrder(k) /\ phase # "stopped"
                 /\ \A j \in Ops : ops[j].r # r
                 /\ ops' = [ops EXCEPT ![k].st = "sent", ![k].c = c, ![k].r = r] /\ UNCHANGED <<replies, notes, phase>>
\* a subscription becomes, or ceases to be, known to the host
On(k) == /\ k \in Ops /\ ops[k].o = "sub" /\ ops[k].st = "new" /\ InOrder(k) /\ phase # "stopped"
         /\ ops' = [ops EXCEPT ![k].st = "on"] /\ UNCHANGED <<replies, notes, phase>>
Off(k) == /\ k \in Ops /\ ops[k].o = "unsub" /\ ops[k].st = "new" /\ InOrder(k) /\ phase # "stopped"
          /\ ops' = [j \in Ops |-> IF j = k THEN [ops[j] EXCEPT !.st = "done"] ELSE IF j \in Active(ops[k].h, ops[k].t) THEN [ops[j] EXCEPT !.st = "off"] ELSE ops[j]]
          /\ UNCHANGED <<replies, notes, phase>>
\* a message of a broker; ok: well-formed and of a kind that ends a request
Reply(c, q) == replies' = With(replies, c, Append(At(replies, c), q)) /\ UNCHANGED <<ops, notes, phase>>
Publish(h, z, ok, m) == /\ notes' = IF Active(h, z) = {} THEN notes ELSE With(notes, h, Append(At(notes, h), [k |-> CHOOSE k \in Active(h, z) : TRUE, z |-> z, ok |-> ok, m |-> m]))
                        /\ UNCHANGED <<ops, replies, phase>>
Rest(q, i) == SubSeq(q, i + 1, Len(q))
Ignored(q) == ~q.ok \/ ~\E k \in Ops : ops[k].st = "sent" /\ ops[k].r = q.m.r
Dropped(q) == ~q.ok \/ ops[q.k].gone
\* the callback of request k gets the first reply with its id
Answer(k, s, m) == /\ k \in Ops /\ IsReq(k) /\ ops[k].st = "sent" /\ phase # "stopped"
                   /\ LET q == At(replies, ops[k].c) IN \E i \in 1..Len(q) :
                         /\ \A j \in 1..(i - 1) : Ignored(q[j])
                         /\ ~Ignored(q[i]) /\ q[i].m = m /\ q[i].s = s /\ m.r = ops[k].r
                         /\ replies' = [replies EXCEPT ![ops[k].c] = Rest(q, i)]
                   /\ ops' = [ops EXCEPT ![k].st = "done"] /\ UNCHANGED <<notes, phase>>
\* the callback of subscription k gets the next notification of its topic; what was sent before an unsubscription may be lost or go to
\* the callback of a later subscription of the topic
Notify(k, s, m) == /\ k \in Ops /\ ops[k].o = "sub" /\ s = ops[k].t /\ phase # "stopped"
                   /\ LET q == At(notes, ops[k].h) IN \E i \in 1..Len(q) :
                         /\ \A j \in 1..(i - 1) : Dropped(q[j])
                         /\ q[i].ok /\ q[i].m = m /\ q[i].z = s /\ (q[i].k = k \/ (ops[q[i].k].gone /\ q[i].k < k))
                         /\ notes' = [notes EXCEPT ![ops[k].h] = Rest(q, i)]
                   /\ UNCHANGED <<ops, replies, phase>>
Quiet == (\A k \in Ops : ops[k].st # "new") /\ (\A c \in DOMAIN replies : \A i \in 1..Len(replies[c]) : Ignored(replies[c][i]))
         /\ (\A h \in DOMAIN notes : \A i \in 1..Len(notes[h]) : Dropped(notes[h][i]))
Stop == phase' = (IF phase = "run" THEN "stopping" ELSE phase) /\ UNCHANGED <<ops, replies, notes>>
Stopped == phase # "run" /\ phase' = "stopped" /\ UNCHANGED <<ops, replies, notes>>
=============================================================================
