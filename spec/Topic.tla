------------------------------- MODULE Topic -------------------------------
(* Topics (service name and parameters), timing selectors, filters and the matching of notifications with              *)
(* subscriptions, MIME types. Text is a sequence of byte codes.                                                         *)
EXTENDS Uri
\* ---------------------------------------------------------------- topics
ServiceChars == Alnum \cup {Slash, 46, 95}
ValidService(s) == Len(s) > 1 /\ s[1] = Slash /\ s[Len(s)] # Slash /\ AllIn(s, ServiceChars)
RECURSIVE Stripped(_)
Stripped(s) == IF s # <<>> /\ s[Len(s)] = Slash THEN Stripped(SubSeq(s, 1, Len(s) - 1)) ELSE s
ServiceOf(s) == LET r == Stripped(SubSeq(s, 1, FirstIn(s, {Quest}) - 1)) IN IF StartsWith(r, <<Slash>>) THEN r ELSE <<Slash>> \o r
TopicOk(s) == ValidService(ServiceOf(s))
ParamsOf(s) == IF SomeIn(s, {Quest}) THEN QueryMap("relaxed", Components(s).query) ELSE {}
\* parameters as a set of <<key, value>>, a missing value is <<>>; sorted by key
RECURSIVE Sorted(_)
Sorted(P) == IF P = {} THEN <<>> ELSE LET p == CHOOSE p \in P : \A q \in P : q = p \/ LexLess(p[1], q[1]) IN <<p>> \o Sorted(P \ {p})
Item(p) == Encode(p[1]) \o (IF p[2] = <<>> THEN <<>> ELSE <<Eq>> \o Encode(p[2]))
RECURSIVE Joined(_, _)
Joined(ss, c) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<c>> \o Joined(Tail(ss), c)
\* the canonical text: equal topics have equal texts, and with the final # no text is a prefix of another
Bare(svc, P) == svc \o (IF P = {} THEN <<>> ELSE <<Quest>> \o Joined([i \in 1..Cardinality(P) |-> Item(Sorted(P)[i])], Amp))
Canonical(svc, P) == Bare(svc, P) \o <<Hash>>
\* ---------------------------------------------------------------- whole numbers as normalised decimal text
NoLead(d) == LET i == FirstIn(d, 49..57) IN IF i > Len(d) THEN <<48>> ELSE From(d, i)
IsInt(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN d # <<>> /\ AllIn(d, Digit)
NormInt(s) == IF s[1] = 45 THEN LET d == NoLead(Tail(s)) IN IF d = <<48>> THEN d ELSE <<45>> \o d ELSE NoLead(s)
NatLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LexLess(a, b)))
\* magnitude limits of an n bit number
Max32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>  Min32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
Max16 == <<51, 50, 55, 54, 55>>  Min16 == <<51, 50, 55, 54, 56>>
Fits(n, hi, lo) == IF n[1] = 45 THEN NatLe(Tail(n), lo) ELSE NatLe(n, hi)
IntLess(a, b) == IF a[1] = 45 THEN IF b[1] = 45 THEN a # b /\ NatLe(Tail(b), Tail(a)) ELSE TRUE ELSE IF b[1] = 45 THEN FALSE ELSE a # b /\ NatLe(a, b)
\* ---------------------------------------------------------------- timing selectors
ToUpper(s) == [i \in 1..Len(s) |-> IF s[i] \in Lower THEN s[i] - 32 ELSE s[i]]
All == <<65, 76, 76>>
Prefix == <<70, 65, 73, 82, 46, 83, 69, 76, 69, 67, 84, 79, 82, 46>> \* FAIR.SELECTOR.
Wild == <<45, 49>>                                                   \* -1
Keys == {67, 83, 80, 84}                                             \* C S P T
TagOk(t) == /\ Len(t) >= 3 /\ t[1] \in Keys /\ t[2] = Eq
            /\ LET v == From(t, 3) IN v = All \/ (IsInt(v) /\ Fits(NormInt(v), Max32, Min32))
TagVal(t) == LET v == From(t, 3) IN IF v = All THEN Wild ELSE NormInt(v)
Tags(s) == LET u == ToUpper(s) IN IF u \in {<<>>, All, Prefix \o All} THEN <<>> ELSE SplitAt(From(u, Len(Prefix) + 1), {Colon})
SelOk(s) == LET u == ToUpper(s) IN u \in {<<>>, All, Prefix \o All} \/ (StartsWith(u, Prefix) /\ \A i \in 1..Len(Tags(s)) : TagOk(Tags(s)[i]))
\* the value of a key: the last one given, else wild
Id(s, k) == LET T == Tags(s) I == {i \in 1..Len(T) : T[i][1] = k} IN IF I = {} THEN Wild ELSE TagVal(T[CHOOSE i \in I : \A j \in I : j <= i])
SelText(s) == LET part(k) == IF Id(s, k) = Wild THEN <<>> ELSE <<<<k, Eq>> \o Id(s, k)>> P == part(67) \o part(83) \o part(80) \o part(84)
              IN Prefix \o (IF P = <<>> THEN All ELSE Joined(P, Colon))
SelMatches(a, b) == \A k \in Keys : Id(b, k) = Wild \/ Id(a, k) = Id(b, k)
SelSame(a, b) == \A k \in Keys : Id(a, k) = Id(b, k)
RECURSIVE TupleLess(_, _)
TupleLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN IntLess(a[1], b[1]) ELSE TupleLess(Tail(a), Tail(b))
SelTuple(s, ts) == <<Id(s, 67), Id(s, 83), Id(s, 80), Id(s, 84), DecStr(ts)>>
\* ---------------------------------------------------------------- decimal fractions, exactly: <<sign, digits, position of the point>>
Dec(s) == LET neg == s # <<>> /\ s[1] = 45 b == IF neg THEN Tail(s) ELSE s
              e == FirstIn(b, {101, 69}) m == SubSeq(b, 1, e - 1) y == IF e > Len(b) THEN <<48>> ELSE From(b, e + 1) x == IF Len(y) > 1 /\ y[1] = 43 /\ y[2] # 45 THEN Tail(y) ELSE y
              p == FirstIn(m, {46}) i == SubSeq(m, 1, p - 1) f == IF p > Len(m) THEN <<>> ELSE From(m, p + 1)
          IN [ok |-> AllIn(i \o f, Digit) /\ i \o f # <<>> /\ (e > Len(b) \/ IsInt(x)),
              neg |-> neg, digits |-> i \o f, point |-> Len(i) + (IF IsInt(x) THEN (IF x[1] = 45 THEN 0 - DecVal(Tail(x)) ELSE DecVal(x)) ELSE 0)]
RECURSIVE NoTrail(_)
NoTrail(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN NoTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
DecNorm(x) == LET i == FirstIn(x.digits, 49..57) IN IF i > Len(x.digits) THEN <<FALSE, <<>>, 0>> ELSE <<x.neg, NoTrail(From(x.digits, i)), x.point - i + 1>>
\* ---------------------------------------------------------------- filters: does what was notified satisfy what was subscribed
NumEq(a, b, hi, lo) == IsInt(a) /\ IsInt(b) /\ Fits(NormInt(a), hi, lo) /\ Fits(NormInt(b), hi, lo) /\ NormInt(a) = NormInt(b)
Satisfies(kind, n, s) == CASE kind = "str" -> n = s
                           [] kind = "int" -> NumEq(n, s, Max32, Min32)
                           [] kind = "i16" -> NumEq(n, s, Max16, Min16)
                           [] kind = "dbl" -> Dec(n).ok /\ Dec(s).ok /\ DecNorm(Dec(n)) = DecNorm(Dec(s))
                           [] OTHER -> SelOk(n) /\ SelOk(s) /\ SelMatches(n, s)
\* every filtered parameter of the subscription has to be there and satisfied; the others do not matter
TopicMatches(F, ns, N, ss, Ps) == /\ ns = ss
   /\ \A p \in Ps : \A f \in F : f[1] = p[1] => \E q \in N : q[1] = p[1] /\ Satisfies(f[2], q[2], p[2])
\* ---------------------------------------------------------------- MIME types: first of the table that occurs
Contains(s, w) == \E i \in 0..Len(s) - Len(w) : SubSeq(s, i + 1, i + Len(w)) = w
FirstHit(T, Hit(_)) == LET I == {i \in 1..Len(T) : Hit(T[i])} IN IF I = {} THEN T[Len(T)] ELSE T[CHOOSE i \in I : \A j \in I : i <= j]
TypeOf(T, s) == FirstHit(T, LAMBDA t : s # <<>> /\ Contains(ToLower(s), ToLower(t.n))).n
TypeOfFile(T, f) == FirstHit(T, LAMBDA t : f # <<>> /\ \E i \in 1..Len(t.e) : EndsWith(ToLower(f), ToLower(t.e[i]))).n
=============================================================================
