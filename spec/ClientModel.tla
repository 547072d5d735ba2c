----------------------------- MODULE ClientModel -----------------------------
(* Two threads, two brokers for requests, one publisher: every order of calls, messages and callbacks within small bounds *)
EXTENDS Client
CONSTANTS MaxOps, MaxMsg
VARIABLES log, n   \* callbacks so far <<op, message>>, messages sent by brokers
mvars == <<cvars, log, n>>
Msg(r) == [r |-> r, d |-> n]
Init == CInit /\ log = <<>> /\ n = 0
Ids == <<"1", "2", "3", "4">>
Cb(k, q) == (IF IsReq(k) THEN Answer(k, "s", q) ELSE Notify(k, ops[k].t, q)) /\ log' = Append(log, <<k, q>>) /\ UNCHANGED n
Next == \/ /\ Len(ops) < MaxOps /\ phase = "run" /\ UNCHANGED <<log, n>>
           /\ \E th \in {1, 2} : \/ \E h \in {"A", "B"} : Call("get", th, h, "s", "/s", "")
                                 \/ (\A k \in Ops : ops[k].o = "sub" => ops[k].gone) /\ Call("sub", 1, "P", "", "/t#", "")
                                 \/ (\E k \in Ops : ops[k].o = "sub" /\ ~ops[k].gone) /\ Call("unsub", 1, "P", "", "/t#", "")
        \/ \E k \in Ops : (Sent(k, ops[k].h, Ids[k]) \/ On(k) \/ Off(k)) /\ UNCHANGED <<log, n>>
        \/ /\ n < MaxMsg /\ n' = n + 1 /\ UNCHANGED log
           /\ \/ \E k \in Ops : ops[k].st \in {"sent", "done"} /\ IsReq(k) /\ Reply(ops[k].c, [ok |-> TRUE, s |-> "s", m |-> Msg(ops[k].r)])
              \/ Reply("A", [ok |-> TRUE, s |-> "s", m |-> Msg("junk")])
              \/ Active("P", "/t#") # {} /\ Publish("P", "/t#", TRUE, Msg("n"))
        \/ \E k \in Ops : \/ IsReq(k) /\ \E i \in 1..Len(At(replies, ops[k].c)) : Cb(k, replies[ops[k].c][i].m)
                          \/ ops[k].o = "sub" /\ \E i \in 1..Len(At(notes, ops[k].h)) : Cb(k, notes[ops[k].h][i].m)
        \/ (Stop \/ Stopped) /\ UNCHANGED <<log, n>>
Spec == Init /\ [][Next]_mvars
OneAnswer == \A i, j \in 1..Len(log) : (i # j /\ log[i][1] = log[j][1]) => ~IsReq(log[i][1])
OwnAnswer == \A i \in 1..Len(log) : IsReq(log[i][1]) => log[i][2].r = ops[log[i][1]].r
EachNoteOnce == \A i, j \in 1..Len(log) : i # j => log[i][2] # log[j][2]
NotesInOrder == \A i, j \in 1..Len(log) : (i < j /\ log[i][2].r = "n" /\ log[j][2].r = "n") => log[i][2].d < log[j][2].d
Distinct == \A i, j \in Ops : (i # j /\ ops[i].r # "") => ops[i].r # ops[j].r
QuietMeansDone == Quiet => \A k \in Ops : IsReq(k) => (ops[k].st = "done" \/ \A c \in DOMAIN replies : \A i \in 1..Len(replies[c]) : replies[c][i].m.r # ops[k].r)
=============================================================================
