-------------------------------- MODULE Wire --------------------------------
(* Messages of the three object serialisers. An object is a sequence of fields                                                        *)
(*   [n: member name, nul: 1 = empty pointer, a: <<>> or <<unit, quantity, description, modifier>>, t: <<kind, element>>, v: value]     *)
(* kinds: n number or text, v vector, a fixed array, t set, m map, mv map of vectors, mw map of variants, M2/M3 multi-array, o object. *)
(* Written: the bytes of a message (YaS, CmwLight); Arriving/Receive: what an object of any type holds after having received it, what *)
(* is reported and whether the receiver gives up. Json texts are taken apart by Json.tla's own parser.                                 *)
EXTENDS JsonText, FiniteSets
LE32(n) == IF n < 0 THEN <<255, 255, 255, 255>> ELSE <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>> \* negative: -1
RECURSIVE Cat(_, _)
Cat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Cat(s, k + 1)
Each(s, F(_)) == Cat([k \in 1..Len(s) |-> F(s[k])], 1)
Str(s) == LE32(Len(s) + 1) \o s \o <<0>>
Name(f) == IF Len(f.n) > 2 /\ f.n[1] = 120 /\ f.n[2] = 95 THEN SubSeq(f.n, 3, Len(f.n)) ELSE f.n   \* without x_
Present(fs) == SelectSeq(fs, LAMBDA f : f.nul = 0)
Leaf(e, v) == IF e = "s" THEN Str(v) ELSE v
Counted(e, vs) == LE32(Len(vs)) \o Each(vs, LAMBDA v : Leaf(e, v))
--------------------------------------------------------------------------------
(* data type ids *)
Rank(e) == CASE e = "b" -> 0 [] e = "1" -> 1 [] e = "2" -> 2 [] e = "4" -> 3 [] e = "8" -> 4 [] e = "f" -> 5 [] e = "d" -> 6 [] e = "s" -> 7
YasNum(e) == IF e = "s" THEN 9 ELSE Rank(e) + 1
YasId(t) == CASE t[1] = "n" -> YasNum(t[2]) [] t[1] \in {"v", "t", "M2", "M3"} -> 100 + YasNum(t[2]) [] t[1] = "a" -> 255
              [] t[1] \in {"m", "mv"} -> 203 [] t[1] = "o" -> 0
CmwId(t) == CASE t[1] = "n" -> Rank(t[2]) [] t[1] \in {"v", "t", "a"} -> 9 + Rank(t[2]) [] t[1] = "M2" -> 17 + Rank(t[2]) [] t[1] = "M3" -> 25 + Rank(t[2])
              [] t[1] \in {"m", "mv", "mw", "o"} -> 8
JsonId(t) == IF t[1] \in {"m", "mv", "M2", "M3", "o"} THEN 2 ELSE 0
Id(p, t) == CASE p = "YaS" -> YasId(t) [] p = "CmwLight" -> CmwId(t) [] p = "Json" -> JsonId(t)
--------------------------------------------------------------------------------
(* data of a field that is not an object *)
Dims(v) == LE32(Len(v[1])) \o Each(v[1], LAMBDA d : LE32(d))
TypeText(e) == CASE e = "d" -> <<118,101,99,116,111,114,60,100,111,117,98,108,101,95,116,62>>                      \* vector<double_t>
Array(e, vs) == LE32(1) \o LE32(Len(vs)) \o Counted(e, vs)
YasData(t, v) == CASE t[1] = "n" -> Leaf(t[2], v) [] t[1] \in {"v", "a", "t"} -> Array(t[2], v) [] t[1] \in {"M2", "M3"} -> Dims(v) \o Counted(t[2], v[2])
                   [] t[1] = "m" -> LE32(Len(v)) \o <<9>> \o LE32(Len(v)) \o Each(v, LAMBDA e : Str(e[1]))
                                    \o <<YasNum(t[2])>> \o LE32(Len(v)) \o Each(v, LAMBDA e : Leaf(t[2], e[2]))
                   [] t[1] = "mv" -> LE32(Len(v)) \o <<9>> \o LE32(Len(v)) \o Each(v, LAMBDA e : Str(e[1]))
                                    \o <<253>> \o Str(TypeText(t[2])) \o Str(<<>>) \o LE32(Len(v)) \o Each(v, LAMBDA e : Array(t[2], e[2]))
CmwData(t, v) == CASE t[1] = "n" -> Leaf(t[2], v) [] t[1] \in {"v", "a", "t"} -> Array(t[2], v) [] t[1] \in {"M2", "M3"} -> Dims(v) \o Counted(t[2], v[2])
                   [] t[1] = "m" -> LE32(Len(v)) \o Each(v, LAMBDA e : Str(e[1]) \o <<Rank(t[2])>> \o Leaf(t[2], e[2]))
                   [] t[1] = "mv" -> LE32(Len(v)) \o Each(v, LAMBDA e : Str(e[1]) \o <<9 + Rank(t[2])>> \o Array(t[2], e[2]))
                   [] t[1] = "mw" -> LE32(Len(v)) \o Each(v, LAMBDA e : Str(e[1]) \o <<Rank(e[2][1])>> \o Leaf(e[2][1], e[2][2]))
\* YaS: type, offset of the data, size of the data, name, [unit, quantity, description, modifier], data. An object's data are its fields
\* and an end marker (counted with its size).
YasField(id, name, notes, data) == LET head == <<id>> \o LE32(9 + Len(name) + 5 + Len(notes)) \o LE32(Len(data)) \o Str(name) \o notes IN head \o data
Notes(a) == IF a = <<>> THEN <<>> ELSE Str(a[1]) \o Str(a[2]) \o Str(a[3]) \o <<a[4]>>
RECURSIVE YasObject(_, _, _)
YasObject(name, fs, meta) ==
   LET F(f) == IF f.t[1] = "o" THEN YasObject(Name(f), f.v, meta) ELSE YasField(YasId(f.t), Name(f), IF meta THEN Notes(f.a) ELSE <<>>, YasData(f.t, f.v))
   IN YasField(0, name, <<>>, Each(Present(fs), F) \o YasField(254, name, <<>>, <<>>))
YasMessage(name, fs, meta) == LE32(-1) \o Str(<<89, 97, 83>>) \o <<1, 0, 0>> \o YasObject(name, fs, meta)
\* CmwLight: number of fields, then name, type, data of each
RECURSIVE CmwObject(_)
CmwObject(fs) == LET F(f) == Str(Name(f)) \o <<CmwId(f.t)>> \o (IF f.t[1] = "o" THEN CmwObject(f.v) ELSE CmwData(f.t, f.v))
                 IN LE32(Len(Present(fs))) \o Each(Present(fs), F)
--------------------------------------------------------------------------------
(* Json: value j is the member's value *)
Num(e, v, j) == CASE e = "b" -> j.k = "b" /\ v = <<j.v>>
                  [] e = "s" -> j.k = "s" /\ j.v = v
                  [] OTHER   -> j.k = "n" /\ \E i \in 1..Len(v) : v[i] = j.v
NumList(e, vs, j) == j.k = "a" /\ Len(j.v) = Len(vs) /\ \A i \in 1..Len(vs) : Num(e, vs[i], j.v[i])
LastOf(m, key) == LET I == {i \in 1..Len(m) : m[i][1] = key} IN m[CHOOSE i \in I : \A l \in I : l <= i][2]
Keys(m) == {m[i][1] : i \in 1..Len(m)}
Holds(t, v, j) == CASE t[1] = "n" -> Num(t[2], v, j) [] t[1] \in {"v", "a"} -> NumList(t[2], v, j)
                    [] t[1] = "t" -> j.k = "a" /\ (\A i \in 1..Len(j.v) : \E l \in 1..Len(v) : Num(t[2], v[l], j.v[i]))
                                     /\ (\A l \in 1..Len(v) : \E i \in 1..Len(j.v) : Num(t[2], v[l], j.v[i])) /\ Cardinality({v[l] : l \in 1..Len(v)}) = Len(v)
                    [] t[1] \in {"m", "mv"} -> j.k = "o" /\ Keys(v) = Keys(j.v) /\ Cardinality(Keys(v)) = Len(v)
                                     /\ \A i \in 1..Len(v) : IF t[1] = "m" THEN Num(t[2], v[i][2], LastOf(j.v, v[i][1])) ELSE NumList(t[2], v[i][2], LastOf(j.v, v[i][1]))
                    [] t[1] \in {"M2", "M3"} -> /\ j.k = "o" /\ Len(j.v) = 2 /\ j.v[1][1] = <<100,105,109,115>> /\ j.v[2][1] = <<118,97,108,117,101,115>>
                                                /\ NumList("4", [i \in 1..Len(v[1]) |-> <<NormInt(v[1][i])>>], j.v[1][2]) /\ NumList(t[2], v[2], j.v[2][2])
RECURSIVE JsonObject(_, _)
JsonObject(fs, j) == LET q == Present(fs) IN j.k = "o" /\ Len(j.v) = Len(q)
                     /\ \A i \in 1..Len(q) : j.v[i][1] = Name(q[i]) /\ (IF q[i].t[1] = "o" THEN JsonObject(q[i].v, j.v[i][2]) ELSE Holds(q[i].t, q[i].v, j.v[i][2]))
JsonWritten(fs, text) == LET d == Parse(text) IN d.k # "bad" /\ JsonObject(fs, d)
--------------------------------------------------------------------------------
(* receiving: the fields of an object as they arrive *)
Arriving(p, x, meta) == IF p = "Json" THEN [i \in 1..Len(x) |-> [n |-> x[i][1], id |-> IF x[i][2].k = "o" THEN 2 ELSE 0, a |-> <<>>, t |-> <<"j", "">>, v |-> x[i][2]]]
                        ELSE LET q == Present(x) IN [i \in 1..Len(q) |-> [n |-> Name(q[i]), id |-> Id(p, q[i].t), a |-> IF p = "YaS" /\ meta THEN q[i].a ELSE <<>>, t |-> q[i].t, v |-> q[i].v]]
Inner(p, f) == IF p = "Json" THEN f.v.v ELSE f.v
Dot(parent, name) == parent \o <<58, 58>> \o name
\* notes of the receiving member: what is reported, and whether the value is taken
Bit(m, b) == (m \div b) % 2 = 1
Objections(ra, sa) == IF ra = <<>> THEN <<0, TRUE>> ELSE
   LET su == IF sa = <<>> THEN <<>> ELSE sa[1] sq == IF sa = <<>> THEN <<>> ELSE sa[2]
       n  == (IF Bit(ra[4], 2) THEN 1 ELSE 0) + (IF Bit(ra[4], 4) THEN 1 ELSE 0)
   IN IF ra[1] # su \/ ra[2] # sq \/ Bit(ra[4], 1) THEN <<n + 1, FALSE>> ELSE <<n, TRUE>>
Where(R, name) == LET I == {i \in 1..Len(R) : Name(R[i]) = name} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
\* o: outcome so far [f: fields, rep: reports, add: fields nobody asked for, set: <<name, bits>> per object, fail]
Report(o, chk, n) == IF n = 0 \/ chk = 0 THEN o ELSE IF chk = 2 THEN [o EXCEPT !.fail = TRUE] ELSE [o EXCEPT !.rep = @ + n]
\* CmwLight cannot step over objects and maps it does not use
Skip(o, p, f) == IF p = "CmwLight" /\ f.id = 8 THEN [o EXCEPT !.fail = TRUE] ELSE o
\* YaS maps of other element types are an error, and so are more elements than a fixed array has (Json: any other number)
Broken(p, r, f) == \/ p = "YaS" /\ r.t[1] \in {"m", "mv"} /\ f.t # r.t
                   \/ r.t[1] = "a" /\ IF p = "Json" THEN f.v.k = "a" /\ Len(f.v.v) # Len(r.v) ELSE f.t[1] \in {"a", "v", "t"} /\ Len(f.v) > Len(r.v)
Unset(R) == [i \in 1..Len(R) |-> [n |-> R[i].n, nul |-> R[i].nul, a |-> R[i].a, t |-> R[i].t, v |-> R[i].v, src |-> <<>>]]
RECURSIVE Receive(_, _, _, _, _, _)
RECURSIVE Steps(_, _, _, _, _, _, _, _)
Step(p, meta, chk, parent, f, o, bits) ==
   LET i == Where(o.f, f.n) IN
   IF i = 0 THEN LET o1 == Report(o, chk, 1) IN IF o1.fail THEN <<o1, bits>> ELSE <<Skip(IF chk = 0 THEN o1 ELSE [o1 EXCEPT !.add = Append(@, <<Dot(parent, f.n), f.id>>)], p, f), bits>>
   ELSE LET r == o.f[i] IN
   IF f.id # Id(p, r.t) THEN LET o1 == Skip(o, p, f) IN <<IF o1.fail THEN o1 ELSE Report(o1, chk, 1), bits>>
   ELSE IF r.t[1] = "o" THEN
        LET q == Receive(p, meta, chk, Name(r), r.v, Inner(p, f)) IN
        <<[o EXCEPT !.f[i].v = q.f, !.f[i].src = <<f>>, !.f[i].nul = 0, !.rep = @ + q.rep, !.add = @ \o q.add, !.set = @ \o q.set, !.fail = q.fail], IF q.fail THEN bits ELSE bits \cup {i}>>
   ELSE LET b == IF chk = 0 THEN <<0, TRUE>> ELSE Objections(r.a, f.a)
            o1 == Report(o, chk, b[1])
        IN IF o1.fail THEN <<o1, bits>>
           ELSE IF ~b[2] THEN <<Skip(o1, p, f), bits>>
           ELSE IF Broken(p, r, f) THEN <<[o1 EXCEPT !.fail = TRUE], bits>>
           ELSE <<[o1 EXCEPT !.f[i].nul = 0, !.f[i].src = <<f>>], bits \cup {i}>>
Steps(p, meta, chk, parent, arr, k, o, bits) ==
   IF k > Len(arr) \/ o.fail THEN [o EXCEPT !.set = IF chk = 0 THEN @ ELSE Append(@, <<parent, [i \in 1..Len(o.f) |-> IF i \in bits THEN 1 ELSE 0]>>)]
   ELSE LET s == Step(p, meta, chk, parent, arr[k], o, bits) IN Steps(p, meta, chk, parent, arr, k + 1, s[1], s[2])
Receive(p, meta, chk, parent, R, x) == Steps(p, meta, chk, parent, Arriving(p, x, meta), 1, [f |-> Unset(R), rep |-> 0, add |-> <<>>, set |-> <<>>, fail |-> FALSE], {})
\* the value received from data of kind st
SetOf(s) == {s[i] : i \in 1..Len(s)}
Took(p, rt, v, st, sv, old) ==
   IF p = "Json" THEN Holds(rt, v, sv)
   ELSE IF rt[1] = "a" THEN v = sv \o SubSeq(old, Len(sv) + 1, Len(old))                             \* elements that were not sent stay
   ELSE IF rt[1] = "t" THEN SetOf(v) = SetOf(sv) /\ Cardinality(SetOf(v)) = Len(v)
   ELSE IF rt[1] = "m" /\ st[1] = "m" /\ rt # st THEN v = <<>>                                       \* CmwLight: entries of another type are left out
   ELSE v = sv
RECURSIVE SameFields(_, _, _)
SameFields(p, exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) :
   LET e == exp[i] g == got[i] IN
   /\ e.n = g.n /\ e.nul = g.nul /\ e.t = g.t
   /\ IF e.t[1] = "o" THEN SameFields(p, IF e.src # <<>> THEN e.v ELSE Unset(e.v), g.v)
      ELSE IF e.src # <<>> THEN Took(p, e.t, g.v, e.src[1].t, e.src[1].v, e.v) ELSE e.v = g.v
=============================================================================
