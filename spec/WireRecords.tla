----------------------------- MODULE WireRecords ----------------------------
(* What the real serialisers wrote and received, judged against Wire.tla                                                   *)
EXTENDS Wire, Records
CONSTANT Proto
Root == <<114,111,111,116>>
Written(r) == CASE Proto = "YaS" -> r.b = YasMessage(r.name, r.s, r.meta = 1) [] Proto = "CmwLight" -> r.b = CmwObject(r.s) [] Proto = "Json" -> JsonWritten(r.s, r.b)
Expected(r) == LET x == IF Proto = "Json" THEN Parse(r.b).v ELSE r.s
                   o == [f |-> Unset(r.init), rep |-> 0, add |-> <<>>, set |-> <<>>, fail |-> FALSE]
                   o0 == IF Proto = "YaS" /\ r.name # r.rname THEN Report(o, r.chk, 1) ELSE o
                   q == Receive(Proto, r.meta = 1, r.chk, Root, r.init, x)
               IN IF o0.fail THEN o0 ELSE [q EXCEPT !.rep = @ + o0.rep]
Once(s, name) == Cardinality({i \in 1..Len(s) : s[i][1] = name}) = 1
Received(r) == LET e == Expected(r) IN
   /\ (Proto = "Json" => Parse(r.b).k = "o")
   /\ r.res = (IF e.fail THEN "err" ELSE "ok")
   /\ SameFields(Proto, e.f, r.got)
   /\ (~e.fail => /\ r.nexc = e.rep /\ r.add = e.add
                  /\ {s[1] : s \in SetOf(r.set)} = {s[1] : s \in SetOf(e.set)}
                  /\ \A i \in 1..Len(e.set) : Once(e.set, e.set[i][1]) => e.set[i] \in SetOf(r.set))
Ok(r) == CASE r.k = "wire" -> Written(r) [] r.k = "recv" -> Received(r)
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
