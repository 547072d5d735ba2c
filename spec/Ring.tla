--------------------------------- MODULE Ring ---------------------------------
(* The ring buffer as its users see it: producers claim sequence numbers, fill the slots and publish them; groups of   *)
(* consumers (a batch processor is a group of one member, a worker pool a group of several) handle every published     *)
(* event after the groups they depend on.  Groups may join and leave while the buffer is in use.                        *)
(*   claimed   highest sequence handed out to a producer                                                                *)
(*   owner     sequence -> producer it was handed to                                                                    *)
(*   val       sequence -> value written (0: nothing yet)                                                               *)
(*   pub       set of sequences for which publishing has begun; pubDone: ... has returned                               *)
(*   slot      slot -> sequence whose value it holds (-1: none)                                                         *)
(*   begun, fin  group -> set of sequences whose handling has begun / finished                                          *)
(*   act       <<group, member>> -> sequence being handled (-1: none)                                                   *)
(*   live, from  groups taking part, and the sequence before the first one each of them handles                         *)
(*   vis       group -> progress the others can see (at most what is finished)                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Producer, MaxSeq
VARIABLES cfg, claimed, owner, val, pub, pubDone, slot, begun, fin, act, live, from, vis
rvars == <<cfg, claimed, owner, val, pub, pubDone, slot, begun, fin, act, live, from, vis>>

Group == 1..Len(cfg.groups)
Deps(g) == {cfg.groups[g].deps[i] : i \in 1..Len(cfg.groups[g].deps)}
Batch(g) == cfg.groups[g].batch
Gating == {g \in live : cfg.groups[g].gate}
SlotOf(s) == s % cfg.size
\* all sequences the group is responsible for, up to k, are finished
DoneUpTo(g, k) == \A s \in (from[g] + 1)..k : s \in fin[g]

RInit(c) == /\ cfg = c /\ claimed = -1 /\ owner = <<>> /\ val = <<>> /\ pub = {} /\ pubDone = {}
            /\ slot = [i \in 0..(c.size - 1) |-> -1]
            /\ begun = [g \in 1..Len(c.groups) |-> {}] /\ fin = [g \in 1..Len(c.groups) |-> {}]
            /\ act = <<>> /\ live = {g \in 1..Len(c.groups) : ~c.groups[g].late}
            /\ from = [g \in 1..Len(c.groups) |-> -1] /\ vis = [g \in 1..Len(c.groups) |-> -1]

\* --- producers -------------------------------------------------------------------------------------------------------
\* room: the slots' previous events are finished in every group (gating groups come after all others)
RoomFor(hi) == \A g \in live : DoneUpTo(g, hi - cfg.size)
ClaimAt(p, lo, hi) == /\ lo <= hi /\ DOMAIN owner \cap (lo..hi) = {} /\ RoomFor(hi)
                      /\ claimed' = IF hi > claimed THEN hi ELSE claimed
                      /\ owner' = [s \in lo..hi |-> p] @@ owner
                      /\ val' = [s \in lo..hi |-> 0] @@ val
                      /\ UNCHANGED <<cfg, pub, pubDone, slot, begun, fin, act, live, from, vis>>
Claim(p, n) == n > 0 /\ ClaimAt(p, claimed + 1, claimed + n)
\* a producer fills a slot it was given and has not published; nobody may still need the slot's previous event
Write(p, s, v) == /\ s \in DOMAIN owner /\ owner[s] = p /\ s \notin pub
                  /\ \A g \in live : s - cfg.size > from[g] => s - cfg.size \in fin[g]
                  /\ val' = [val EXCEPT ![s] = v] /\ slot' = [slot EXCEPT ![SlotOf(s)] = s]
                  /\ UNCHANGED <<cfg, claimed, owner, pub, pubDone, begun, fin, act, live, from, vis>>
\* a single producer publishes everything up to s, one of several producers exactly s
PubSet(s) == IF cfg.mp THEN {s} ELSE {x \in DOMAIN owner : x <= s}
Publish(p, s) == /\ s \in DOMAIN owner /\ owner[s] = p
                 /\ pub' = pub \cup PubSet(s)
                 /\ UNCHANGED <<cfg, claimed, owner, val, pubDone, slot, begun, fin, act, live, from, vis>>
PublishEnd(s) == /\ s \in pub /\ pubDone' = pubDone \cup PubSet(s)
                 /\ UNCHANGED <<cfg, claimed, owner, val, pub, slot, begun, fin, act, live, from, vis>>

\* --- consumers -------------------------------------------------------------------------------------------------------
Idle(g, m) == IF <<g, m>> \in DOMAIN act THEN act[<<g, m>>] = -1 ELSE TRUE
\* s may be handled by group g now
Ready(g, s) == s \in pub /\ \A d \in Deps(g) : s \in fin[d]
Begin(g, m, s) == /\ g \in live /\ Idle(g, m) /\ s > from[g] /\ s \notin begun[g] /\ Ready(g, s)
                  /\ Batch(g) => \A x \in (from[g] + 1)..(s - 1) : x \in fin[g]     \* in order, without gaps
                  /\ begun' = [begun EXCEPT ![g] = @ \cup {s}] /\ act' = (<<g, m>> :> s) @@ act
                  /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, fin, live, from, vis>>
Finish(g, m, s) == /\ ~Idle(g, m) /\ act[<<g, m>>] = s
                   /\ fin' = [fin EXCEPT ![g] = @ \cup {s}] /\ act' = [act EXCEPT ![<<g, m>>] = -1]
                   /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, begun, live, from, vis>>
Show(g, k) == /\ k > vis[g] /\ DoneUpTo(g, k) /\ k <= claimed /\ vis' = [vis EXCEPT ![g] = k]
              /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, begun, fin, act, live, from>>
\* a group joins behind k: it handles everything after k.  Events after k must still be there.
Join(g, k) == /\ g \notin live /\ \A s \in pub : s > k => slot[SlotOf(s)] = s
              /\ claimed - k <= cfg.size
              /\ live' = live \cup {g} /\ from' = [from EXCEPT ![g] = k] /\ vis' = [vis EXCEPT ![g] = k]
              /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, begun, fin, act>>
Leave(g) == /\ g \in live /\ \A a \in DOMAIN act : a[1] = g => act[a] = -1
            /\ live' = live \ {g}
            /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, begun, fin, act, from, vis>>

\* --- the implementation's view: progress of others is known only through vis -----------------------------------------
ImplRoom(hi) == \A g \in Gating : hi - cfg.size <= vis[g]
ImplReady(g, s) == s \in pub /\ \A d \in Deps(g) : s <= vis[d]
Member == 1..2
Next == \/ \E p \in Producer, n \in 1..2 : claimed + n <= MaxSeq /\ ImplRoom(claimed + n) /\ Claim(p, n)
        \/ \E s \in DOMAIN owner : (val[s] = 0 /\ Write(owner[s], s, s + 1)) \/ (val[s] # 0 /\ s \notin pub /\ (cfg.mp \/ \A x \in DOMAIN owner : x < s => x \in pub) /\ Publish(owner[s], s))
        \/ \E s \in pub \ pubDone : PublishEnd(s)
        \/ \E g \in live, m \in Member, s \in 0..MaxSeq : (Batch(g) => m = 1) /\ ImplReady(g, s) /\ Begin(g, m, s)
        \/ \E a \in DOMAIN act : act[a] # -1 /\ Finish(a[1], a[2], act[a])
        \/ \E g \in live, k \in 0..MaxSeq : Show(g, k)
        \/ \E g \in Group : cfg.groups[g].late /\ g \notin live /\ from[g] = -1 /\ Join(g, claimed)

\* --- what users rely on ----------------------------------------------------------------------------------------------
TypeOK == claimed \in -1..MaxSeq /\ pub \subseteq DOMAIN owner /\ pubDone \subseteq pub
\* claims are contiguous and every sequence has one owner
Contiguous == DOMAIN owner = 0..claimed
\* an event being handled, or still to be handled by some group, is intact in its slot
Intact == /\ \A a \in DOMAIN act : act[a] # -1 => slot[SlotOf(act[a])] = act[a]
          /\ \A s \in pub : (\E g \in live : s > from[g] /\ s \notin fin[g]) => slot[SlotOf(s)] = s
\* nothing is handled before it is published or before the groups in front handled it
Ordered == \A g \in Group : begun[g] \subseteq pub /\ \A d \in Deps(g) : begun[g] \subseteq fin[d]
\* never more than size events in flight
Capacity == \A g \in live : \A s \in pub : (s > from[g] /\ s \notin fin[g]) => claimed - s < cfg.size
OncePerGroup == \A g \in Group : fin[g] \subseteq begun[g] /\ \A a, b \in DOMAIN act : (a # b /\ a[1] = b[1] /\ act[a] # -1) => act[a] # act[b]
VisHonest == \A g \in live : DoneUpTo(g, vis[g])
Inv == TypeOK /\ Contiguous /\ Intact /\ Ordered /\ Capacity /\ OncePerGroup /\ VisHonest
\* everything published is handled in the end (checked under weak fairness); also: no deadlock before that
Finished == claimed = MaxSeq /\ \A g \in Group : g \in live /\ fin[g] = (from[g] + 1)..MaxSeq
===============================================================================
