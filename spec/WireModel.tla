----------------------------- MODULE WireModel -----------------------------
(* Theorems of Wire.tla over all small senders and receivers: distinct objects have distinct messages; an object receives its own   *)
(* type completely and silently; a receiver of another type takes the fields it has in common and leaves the others alone; checking  *)
(* ALWAYS gives up exactly if checking LENIENT reports something, IGNORE never reports; the members set are those that were taken.   *)
EXTENDS Wire
CONSTANT Deep
W == <<1, 0, 0, 0>>  V == <<0, 2, 0, 0>>
NoNotes == <<>>
Unit == <<<<117>>, <<113>>, <<>>, 0>>   RoUnit == <<<<117>>, <<113>>, <<>>, 1>>
F(n, a, t, v) == [n |-> <<n>>, nul |-> 0, a |-> a, t |-> t, v |-> v]
Leaves(n) == {F(n, NoNotes, <<"n", "4">>, v) : v \in {W, V}} \cup {F(n, a, <<"n", "4">>, W) : a \in {Unit, RoUnit}}
          \cup {F(n, NoNotes, <<"n", "s">>, v) : v \in {<<>>, <<0>>, <<97, 0>>}}
          \cup {F(n, NoNotes, <<"v", "4">>, v) : v \in {<<>>, <<W>>, <<W, V>>}}
          \cup {F(n, NoNotes, <<"m", "4">>, v) : v \in {<<>>, <<<<<<97>>, W>>>>}}
Small(n) == {F(n, NoNotes, <<"n", "4">>, v) : v \in {W, V}} \cup {F(n, NoNotes, <<"n", "s">>, <<97>>)}
Fields(n) == Leaves(n) \cup {F(n, NoNotes, <<"o", "">>, <<l>>) : l \in Small(97) \cup (IF Deep THEN Leaves(98) ELSE {})} \cup {F(n, NoNotes, <<"o", "">>, <<>>)}
Objects == {<<>>} \cup {<<f>> : f \in Fields(97)} \cup {<<f>> : f \in Small(98)} \cup {<<f, g>> : f \in Fields(97), g \in IF Deep THEN Leaves(98) ELSE Small(98)}
VARIABLE x
Init == x \in Objects
Spec == Init /\ [][UNCHANGED x]_x
\* notes are part of a message only for YaS with meta information
RECURSIVE Bare(_)
Bare(fs) == [i \in 1..Len(fs) |-> [fs[i] EXCEPT !.a = <<>>, !.v = IF fs[i].t[1] = "o" THEN Bare(fs[i].v) ELSE fs[i].v]]
RECURSIVE NoMap(_)
NoMap(fs) == \A i \in 1..Len(fs) : fs[i].t[1] # "m" /\ (fs[i].t[1] = "o" => NoMap(fs[i].v))   \* a CmwLight map is written like an object having its keys as members
Distinct == /\ \A y \in Objects : YasMessage(<<114>>, x, TRUE) = YasMessage(<<114>>, y, TRUE) => x = y
            /\ \A y \in Objects : YasMessage(<<114>>, x, FALSE) = YasMessage(<<114>>, y, FALSE) => Bare(x) = Bare(y)
            /\ NoMap(x) => \A y \in Objects : (NoMap(y) /\ CmwObject(x) = CmwObject(y)) => Bare(x) = Bare(y)
R(p, chk, r) == Receive(p, TRUE, chk, <<114>>, r, x)
RECURSIVE ReadOnly(_)
ReadOnly(fs) == \E i \in 1..Len(fs) : IF fs[i].t[1] = "o" THEN ReadOnly(fs[i].v) ELSE fs[i].a # <<>> /\ fs[i].a[4] = 1
Own == ~ReadOnly(x) => LET q == R("YaS", 2, x) IN ~q.fail /\ q.rep = 0 /\ q.add = <<>> /\ SameFields("YaS", q.f, x) /\ \A s \in SetOf(q.set) : \A i \in 1..Len(s[2]) : s[2][i] = 1
Flat(fs) == \A i \in 1..Len(fs) : fs[i].t[1] # "o"
Strict == \A r \in Objects : \A p \in IF NoMap(x) THEN {"YaS", "CmwLight"} ELSE {"YaS"} :
          LET a == R(p, 2, r) l == R(p, 1, r) g == R(p, 0, r) IN /\ a.fail = (l.fail \/ l.rep > 0)
                                                                 /\ g.rep = 0 /\ g.add = <<>> /\ g.set = <<>>
                                                                 /\ (~l.fail /\ Flat(x) /\ Flat(r) => \A i \in 1..Len(r) : (l.f[i].src # <<>>) = (l.set[1][2][i] = 1))
                                                                 /\ (~g.fail => \A i \in 1..Len(r) : g.f[i].src # <<>> => \E k \in 1..Len(x) : x[k].n = r[i].n)
Common == Flat(x) => \A r \in Objects : Flat(r) => LET l == R("YaS", 0, r) IN ~l.fail /\ \A i \in 1..Len(r) : (l.f[i].src # <<>>) = (\E k \in 1..Len(x) : x[k].n = r[i].n /\ x[k].t = r[i].t)
=============================================================================
