------------------------------ MODULE Setting ------------------------------
(* BasicSetting: one value shared between many non-real-time threads and one real-time thread (thread 0).        *)
(* Mode "nrt": the non-real-time threads modify, the real-time thread reads. Mode "rt": the other way round.      *)
(* A modification is acquire (a private working value, starting from the current one) .. release (publication);   *)
(* modifications of different threads exclude each other. A read is acquire .. release; it keeps one snapshot.    *)
(* Operations are Call -> Lin -> Ret.                                                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thread, Mode, MaxVal
VARIABLES cur,      \* the published value
          writer,   \* the thread inside a modification, or -1
          wval,     \* its working value
          snap,     \* [Thread -> value seen by the read in progress, or -1]
          pend      \* [Thread -> pending operation]
svars == <<cur, writer, wval, snap, pend>>
Idle == [op |-> "-", a |-> 0, lin |-> FALSE, v |-> 0]
IsWriter(t) == (Mode = "rt") = (t = 0)
SInit == cur = 0 /\ writer = -1 /\ wval = 0 /\ snap = [t \in Thread |-> -1] /\ pend = [t \in Thread |-> Idle]

Call(t, op, a) == /\ pend[t] = Idle
                  /\ op \in {"wacq", "repl"} => IsWriter(t) /\ writer # t
                  /\ op = "wrel" => writer = t
                  /\ op = "racq" => ~IsWriter(t) /\ snap[t] = -1
                  /\ op = "rrel" => snap[t] # -1
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, a |-> a, lin |-> FALSE, v |-> 0]]
                  /\ UNCHANGED <<cur, writer, wval, snap>>
Done(t, v) == pend' = [pend EXCEPT ![t].lin = TRUE, ![t].v = v]
LinWAcq(t) == pend[t].op = "wacq" /\ writer = -1 /\ writer' = t /\ wval' = cur /\ Done(t, cur) /\ UNCHANGED <<cur, snap>>
LinWRel(t) == pend[t].op = "wrel" /\ cur' = wval /\ writer' = -1 /\ Done(t, 0) /\ UNCHANGED <<wval, snap>>
LinRepl(t) == pend[t].op = "repl" /\ writer = -1 /\ cur' = pend[t].a /\ Done(t, 0) /\ UNCHANGED <<writer, wval, snap>>
LinRAcq(t) == pend[t].op = "racq" /\ snap' = [snap EXCEPT ![t] = cur] /\ Done(t, cur) /\ UNCHANGED <<cur, writer, wval>>
LinRRel(t) == pend[t].op = "rrel" /\ snap' = [snap EXCEPT ![t] = -1] /\ Done(t, 0) /\ UNCHANGED <<cur, writer, wval>>
Lin(t) == ~pend[t].lin /\ (LinWAcq(t) \/ LinWRel(t) \/ LinRepl(t) \/ LinRAcq(t) \/ LinRRel(t))
Ret(t, v) == pend[t].lin /\ pend[t].v = v /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<cur, writer, wval, snap>>
\* inside a modification the working value is the thread's own: it reads what it wrote last
Work(t, v) == writer = t /\ pend[t] = Idle /\ wval' = v /\ UNCHANGED <<cur, writer, snap, pend>>
\* what a thread sees while inside: its working value, or its snapshot
Seen(t) == IF writer = t THEN wval ELSE snap[t]

SNext == \E t \in Thread :
           \/ writer # t /\ IsWriter(t) /\ (Call(t, "wacq", 0) \/ \E a \in 1..MaxVal : Call(t, "repl", a))
           \/ writer = t /\ wval < MaxVal /\ Work(t, wval + 1)
           \/ writer = t /\ Call(t, "wrel", 0)
           \/ ~IsWriter(t) /\ (Call(t, "racq", 0) \/ Call(t, "rrel", 0))
           \/ Lin(t) \/ Ret(t, pend[t].v)
SSpec == SInit /\ [][SNext]_svars
OneWriter == writer = -1 \/ IsWriter(writer)
\* the real-time thread never waits: its operations can take effect whatever the others are doing
RealTimeNeverWaits == (pend[0] # Idle /\ ~pend[0].lin) => ENABLED Lin(0)
\* nobody but the writer changes the value, and a snapshot does not change
Stable == [][\A t \in Thread : (snap[t] # -1 /\ snap'[t] # -1) => snap'[t] = snap[t]]_svars
Publishes == [][cur' # cur => \E t \in Thread : IsWriter(t) /\ pend[t].op \in {"wrel", "repl"} /\ pend'[t].lin]_svars
=============================================================================
