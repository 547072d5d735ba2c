------------------------------ MODULE RingTrace ------------------------------
(* Every recorded history of the real ring buffer, its processors and pollers must be a behaviour of Ring.             *)
(* Events are logged so that intervals are exact bounds: "begins" before the code runs, "ends" after it.               *)
EXTENDS Ring, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, x
tvars == <<rvars, tid, l, x>>
Ev == Traces[tid].ev[l]
Last == Len(Traces[tid].ev)
Pos == (IOEnv.SHOWPOS = "1") => PrintT(<<"POS", tid, l + 1>>)
None == [op |-> "-"]
(* x: what the judge remembers besides Ring's state                                                                     *)
(*   pend   thread -> the call it is in, with the bounds valid when it began                                            *)
(*   lo, hi group -> progress certainly / possibly visible (groups whose progress is stored by the harness itself)      *)
(*   eob    <<group, member>> -> TRUE after the last event of a batch                                                   *)
(*   thr    <<group, member>> -> sequence whose handler threw and whose exception was not delivered yet (-1: none)      *)
(*   run    <<group, member>> -> "idle", "run" (entered), "on" (start notified), "off" (shutdown notified)              *)
(*   halt   member -> [n: halt requests that may still end a run, open: halt calls that have not returned]                *)
(*   churn  groups whose joining or leaving is under way: they may still, or already, hold producers back               *)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
C(t) == [size |-> t.size, mp |-> t.mp, groups |-> t.groups]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ RInit(C(Traces[tid]))
             /\ x = [pend |-> <<>>, lo |-> [g \in 1..Len(Traces[tid].groups) |-> -1], hi |-> [g \in 1..Len(Traces[tid].groups) |-> -1],
                     eob |-> <<>>, thr |-> <<>>, run |-> <<>>, halt |-> <<>>, cnt |-> <<>>, churn |-> {}]
Consume(e) == l <= Last /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
Manual == Traces[tid].manual
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Max(S) == CHOOSE a \in S : \A b \in S : a >= b
MinLo == IF x.churn # {} THEN -1 ELSE Min({claimed} \cup {x.lo[g] : g \in Gating})
Relaxed(p) == [t \in DOMAIN p |-> IF p[t].op \in {"claim", "ask"} THEN [p[t] EXCEPT !.vl = -1] ELSE p[t]]
\* sequences that calls still running may have been given
PendN == LET T == {t \in DOMAIN x.pend : x.pend[t].op = "claim"} IN
         LET RECURSIVE Sum(_)
             Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN x.pend[t].n + Sum(S \ {t})
         IN Sum(T)
ClaimedUp == claimed + PendN
MinHi == Min({ClaimedUp} \cup {x.hi[g] : g \in Gating})
Pend(t) == Get(x.pend, t, None)

\* --- claims
TClaimCall == /\ Consume("cc") /\ Pend(Ev.t) = None
              /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, [op |-> "claim", n |-> Ev.n, cl |-> claimed, vl |-> MinLo])] /\ UNCHANGED rvars
TClaimRet == /\ Consume("cr") /\ Pend(Ev.t).op = "claim" /\ Pend(Ev.t).n = Ev.n
             /\ ClaimAt(Ev.t, Ev.hi - Ev.n + 1, Ev.hi)
             /\ Ev.hi <= ClaimedUp
             /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, None)]
\* refused: there was not enough room at some moment of the call
TClaimFail == /\ Consume("cf") /\ Pend(Ev.t).op = "claim" /\ Pend(Ev.t).n = Ev.n
              /\ Manual => ClaimedUp - cfg.size > Pend(Ev.t).vl   \* ClaimedUp includes this call's own n
              /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, None)] /\ UNCHANGED rvars
TWrite == Consume("w") /\ Write(Ev.t, Ev.s, Ev.v) /\ UNCHANGED x
TPub == Consume("p") /\ Publish(Ev.t, Ev.s) /\ UNCHANGED x
TPubEnd == Consume("pe") /\ PublishEnd(Ev.s) /\ UNCHANGED x

\* --- handlers
K == <<Ev.g, Ev.m>>
TBegin == /\ Consume("h") /\ Begin(Ev.g, Ev.m, Ev.s)
          /\ Ev.v = val[Ev.s] /\ Get(x.thr, K, -1) = -1
          /\ Get(x.run, K, "on") = "on"
          /\ Batch(Ev.g) => /\ (~Ev.b => Ready(Ev.g, Ev.s + 1))                      \* not the end: the next one is there
                            /\ Ev.q < Ev.s /\ DoneUpTo(Ev.g, Ev.q)                    \* own progress never runs ahead
                            /\ (Get(x.eob, K, TRUE) => Ev.q = Ev.s - 1)               \* ... and is visible after each batch
          /\ x' = [x EXCEPT !.eob = Put(@, K, Ev.b), !.cnt = Put(@, Ev.g, Get(@, Ev.g, 0) + 1)]
TFinish == /\ Consume("d") /\ Get(x.thr, K, -1) = -1 /\ Finish(Ev.g, Ev.m, Ev.s) /\ UNCHANGED x
TThrow == /\ Consume("x") /\ act[K] = Ev.s /\ Get(x.thr, K, -1) = -1 /\ x' = [x EXCEPT !.thr = Put(@, K, Ev.s)] /\ UNCHANGED rvars
\* the exception handler gets the event that failed; afterwards the event counts as handled
TExc == /\ Consume("eh") /\ Get(x.thr, K, -1) = Ev.s /\ Ev.v = val[Ev.s]
        /\ x' = [x EXCEPT !.thr = Put(@, K, -1), !.eob = Put(@, K, TRUE)] /\ UNCHANGED rvars
\* a poller's handler threw: the event will be delivered again
TAgain == /\ Consume("xr") /\ Get(x.thr, K, -1) = Ev.s /\ act[K] = Ev.s
          /\ act' = [act EXCEPT ![K] = -1] /\ begun' = [begun EXCEPT ![Ev.g] = @ \ {Ev.s}]
          /\ x' = [x EXCEPT !.thr = Put(@, K, -1), !.eob = Put(@, K, TRUE)]
          /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, fin, live, from, vis>>

\* --- progress stored by the harness
TSeqBegin == Consume("sb") /\ DoneUpTo(Ev.g, Ev.v) /\ x' = [x EXCEPT !.hi[Ev.g] = Ev.v] /\ UNCHANGED rvars
TSeqEnd == Consume("sa") /\ x' = [x EXCEPT !.lo[Ev.g] = Ev.v] /\ UNCHANGED rvars

\* --- questions
TAsk == /\ Consume("qc") /\ Pend(Ev.t) = None
        /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, [op |-> "ask", n |-> 0, cl |-> claimed, vl |-> MinLo, pd |-> pubDone, own |-> DOMAIN owner])] /\ UNCHANGED rvars
Answer(p) ==
  CASE Ev.op = "hascap" -> IF Ev.v = 1 THEN p.cl + Ev.a - cfg.size <= MinHi ELSE ClaimedUp + Ev.a - cfg.size > p.vl
    [] Ev.op = "remain" -> Ev.v >= cfg.size - (ClaimedUp - p.vl) /\ Ev.v <= cfg.size - (p.cl - MinHi) /\ Ev.v <= cfg.size
    [] Ev.op = "avail"  -> IF Ev.v = 1 THEN Ev.a \in pub ELSE Ev.a \notin p.pd \/ Ev.a + cfg.size \in pub
    [] Ev.op = "highest" -> /\ Ev.v >= Ev.a - 1 /\ Ev.v <= Ev.b /\ \A s \in Ev.a..Ev.v : s \in pub
                            /\ (Ev.v < Ev.b => Ev.v + 1 \notin p.pd)
    [] Ev.op = "mingate" -> Ev.v >= p.vl /\ Ev.v <= MinHi
    [] Ev.op = "cursor" -> IF cfg.mp THEN Ev.v >= p.cl /\ Ev.v <= ClaimedUp
                           ELSE (Ev.v = -1 \/ Ev.v \in pub) /\ \A s \in p.pd : s <= Ev.v
    [] OTHER -> FALSE
TAnswer == /\ Consume("qr") /\ Pend(Ev.t).op = "ask" /\ Answer(Pend(Ev.t))
           /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, None)] /\ UNCHANGED rvars

\* --- pollers
NextOf(g) == CHOOSE s \in (from[g] + 1)..(claimed + 1) : DoneUpTo(g, s - 1) /\ s \notin fin[g]
TPollCall == /\ Consume("pc")
             /\ LET s == NextOf(Ev.g) IN
                x' = [x EXCEPT !.cnt = Put(@, Ev.g, 0), !.pend = Put(@, Ev.t, [op |-> "poll", n |-> 0, nx |-> s, ready |-> s \in pubDone /\ \A d \in Deps(Ev.g) : s <= x.lo[d],
                                                                pubd |-> s \in pubDone, owned |-> s \in DOMAIN owner])]
             /\ UNCHANGED rvars
TPollRet == /\ Consume("pr") /\ Pend(Ev.t).op = "poll"
            /\ LET p == Pend(Ev.t) IN
               CASE Ev.v = "P" -> Get(x.cnt, Ev.g, 0) >= 1
                 [] Ev.v = "G" -> Get(x.cnt, Ev.g, 0) = 0 /\ ~p.ready /\ (IF cfg.mp THEN p.nx <= ClaimedUp ELSE p.nx \in pub)
                 [] Ev.v = "I" -> Get(x.cnt, Ev.g, 0) = 0 /\ ~p.ready /\ ~(IF cfg.mp THEN p.owned ELSE p.pubd)
                 [] Ev.v = "X" -> Get(x.cnt, Ev.g, 0) >= 1                                          \* the handler's exception came out
                 [] OTHER -> FALSE
            /\ Ev.q = NextOf(Ev.g) - 1                                                \* progress is exactly what was handled
            /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, None), !.lo[Ev.g] = Ev.q, !.hi[Ev.g] = Ev.q, !.eob = Put(@, <<Ev.g, 1>>, TRUE)]
            /\ UNCHANGED rvars

\* --- groups coming and going
TJoinCall == /\ Consume("jc") /\ Ev.g \notin live /\ x' = [x EXCEPT !.churn = @ \cup {Ev.g}, !.pend = Relaxed(@)] /\ UNCHANGED rvars
TJoin == /\ Consume("jr") /\ Join(Ev.g, Ev.v) /\ x' = [x EXCEPT !.lo[Ev.g] = Ev.v, !.hi[Ev.g] = Ev.v, !.churn = @ \ {Ev.g}]
TLeave == /\ Consume("lv") /\ Leave(Ev.g) /\ x' = [x EXCEPT !.churn = @ \cup {Ev.g}, !.pend = Relaxed(@)]
TLeft == /\ Consume("lr") /\ Ev.g \notin live /\ Ev.v = 1 /\ x' = [x EXCEPT !.churn = @ \ {Ev.g}] /\ UNCHANGED rvars

\* --- life cycle
Run == Get(x.run, K, "idle")
TRunCall == /\ Consume("rc") /\ Run = "idle" /\ x' = [x EXCEPT !.run = Put(@, K, "run"), !.eob = Put(@, K, TRUE)] /\ UNCHANGED rvars
TStarted == /\ Consume("os") /\ Run = "run" /\ x' = [x EXCEPT !.run = Put(@, K, "on")] /\ UNCHANGED rvars
\* a run stops only because of a halt (or because the exception handler gave up); later halts may end the next run
Halt == Get(x.halt, K, [n |-> 0, open |-> 0])
TStopped == /\ Consume("od") /\ Run = "on" /\ (IF Get(x.thr, K, -1) # -1 THEN TRUE ELSE Idle(Ev.g, Ev.m) /\ Halt.n > 0)
            /\ x' = [x EXCEPT !.run = Put(@, K, "off"), !.halt = Put(@, K, [Halt EXCEPT !.n = Halt.open])] /\ UNCHANGED rvars
\* run returns after exactly one start and one shutdown notification, with all progress visible
TRunRet == /\ Consume("rr") /\ Run = "off" /\ Get(x.thr, K, -1) = -1
           /\ (Batch(Ev.g) => Ev.q = NextOf(Ev.g) - 1)
           /\ x' = [x EXCEPT !.run = Put(@, K, "idle")] /\ UNCHANGED rvars
\* the exception handler itself threw: the run ends, the processor is stopped; events since its visible progress come again
TRunThrew == /\ Consume("rx") /\ Run = "off" /\ Batch(Ev.g) /\ ~Ev.running /\ act[K] = Get(x.thr, K, -1) /\ act[K] > Ev.q /\ DoneUpTo(Ev.g, Ev.q)
             /\ act' = [act EXCEPT ![K] = -1]
             /\ begun' = [begun EXCEPT ![Ev.g] = {s \in @ : s <= Ev.q}] /\ fin' = [fin EXCEPT ![Ev.g] = {s \in @ : s <= Ev.q}]
             /\ x' = [x EXCEPT !.run = Put(@, K, "idle"), !.thr = Put(@, K, -1), !.eob = Put(@, K, TRUE)]
             /\ UNCHANGED <<cfg, claimed, owner, val, pub, pubDone, slot, live, from, vis>>
\* a second run while running is refused
TRunRefused == /\ Consume("rf") /\ Run # "idle" /\ UNCHANGED <<rvars, x>>
THalt == /\ Consume("hc") /\ x' = [x EXCEPT !.halt = Put(@, K, [n |-> Halt.n + 1, open |-> Halt.open + 1])] /\ UNCHANGED rvars
THaltRet == /\ Consume("hr") /\ x' = [x EXCEPT !.halt = Put(@, K, [Halt EXCEPT !.open = @ - 1])] /\ UNCHANGED rvars
\* shutdown waits for everything that was published when it was called
TShutCall == /\ Consume("sc") /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, [op |-> "shut", n |-> 0, pd |-> pubDone])] /\ UNCHANGED rvars
TShutRet == /\ Consume("sr") /\ Pend(Ev.t).op = "shut" /\ \A g \in live : Pend(Ev.t).pd \ (-1..from[g]) \subseteq fin[g]
            /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, None)] /\ UNCHANGED rvars
\* the same for a single group (a pool that drained)
TShutGroup == /\ Consume("sg") /\ Pend(Ev.t).op = "shut" /\ Pend(Ev.t).pd \ (-1..from[Ev.g]) \subseteq fin[Ev.g]
              /\ x' = [x EXCEPT !.pend = Put(@, Ev.t, None)] /\ UNCHANGED rvars
TTimeout == /\ Consume("to") /\ Run = "on" /\ Idle(Ev.g, Ev.m) /\ (Batch(Ev.g) => Ev.q = NextOf(Ev.g) - 1) /\ UNCHANGED <<rvars, x>>
TNote == /\ Consume("note") /\ UNCHANGED <<rvars, x>>

TEnd == /\ Consume("end")
        /\ Contiguous /\ pub = DOMAIN owner /\ pubDone = pub
        /\ \A t \in DOMAIN x.pend : x.pend[t] = None
        /\ \A a \in DOMAIN act : act[a] = -1
        /\ \A a \in DOMAIN x.thr : x.thr[a] = -1
        /\ \A a \in DOMAIN x.run : x.run[a] = "idle"
        /\ \A g \in live : fin[g] = (from[g] + 1)..claimed
        /\ \A a \in DOMAIN x.eob : (Batch(a[1]) /\ a[1] \in live) => x.eob[a]
        /\ \A i \in 1..Len(Ev.q) : (i \in live /\ Batch(i)) => Ev.q[i] = claimed
        /\ UNCHANGED <<rvars, x>>
\* the end of a history that was stopped early
TEnd0 == /\ Consume("end0") /\ \A a \in DOMAIN act : act[a] = -1
         /\ \A a \in DOMAIN x.run : x.run[a] = "idle"
         /\ UNCHANGED <<rvars, x>>
TDone == l = Last + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED <<rvars, tid, x>>
TraceNext == \/ /\ (TClaimCall \/ TClaimRet \/ TClaimFail \/ TWrite \/ TPub \/ TPubEnd \/ TBegin \/ TFinish \/ TThrow \/ TExc \/ TAgain
                    \/ TSeqBegin \/ TSeqEnd \/ TAsk \/ TAnswer \/ TPollCall \/ TPollRet \/ TJoinCall \/ TJoin \/ TLeave \/ TLeft
                    \/ TRunCall \/ TStarted \/ TStopped \/ TRunRet \/ TRunThrew \/ TRunRefused \/ THalt \/ THaltRet \/ TShutCall \/ TShutRet \/ TShutGroup \/ TTimeout \/ TNote \/ TEnd \/ TEnd0)
                /\ Pos
             \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == Intact /\ Ordered /\ OncePerGroup
=============================================================================
