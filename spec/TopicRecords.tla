---------------------------- MODULE TopicRecords ----------------------------
(* What the real code reported about topics, selectors, matching and MIME types, judged against Topic.tla               *)
EXTENDS Topic, Records
SetOf(m) == {<<m[i][1], m[i][2]>> : i \in 1..Len(m)}
\* r reports topic (svc, P)
Reports(r, svc, P) == /\ r.svc = svc /\ SetOf(r.par) = P /\ r.z = Canonical(svc, P) /\ r.zn = Bare(svc, P)
                      /\ r.back = "same" /\ r.nback = "same" /\ r.mback = "same" /\ r.mz = r.z /\ r.copy
                      /\ LET c == Components(r.mdp) IN c.scheme = <<>> /\ c.path = svc /\ QueryMap("strict", c.query) = P
\* a query item without a key is not a parameter: nothing is said about such texts
Text(r) == IF \E p \in ParamsOf(r.in) : p[1] = <<>> THEN TRUE ELSE IF ~TopicOk(r.in) THEN r.res = "err" ELSE r.res = "ok" /\ Reports(r, ServiceOf(r.in), ParamsOf(r.in))
Prefixes(a, b) == StartsWith(b, a)
Pair(r) == LET A == SetOf(r.a.gp) B == SetOf(r.b.gp) same == r.a.gs = r.b.gs /\ A = B IN
           /\ Reports(r.a, r.a.gs, A) /\ Reports(r.b, r.b.gs, B)
           /\ r.eq = same /\ (same => r.heq) /\ (Prefixes(r.a.z, r.b.z) <=> same)
IdsOk(r, s) == IF ~SelOk(s) THEN r.res = "err" ELSE r.res = "ok" /\ r.c = Id(s, 67) /\ r.s = Id(s, 83) /\ r.p = Id(s, 80) /\ r.t = Id(s, 84) /\ r.str = SelText(s)
Sel(r) == IdsOk(r, r.in) /\ IdsOk(r.n0, r.in2) /\ IdsOk(r.n1, r.in2)
SelPair(r) == LET same == SelSame(r.a, r.b) /\ r.ta = r.tb lt == TupleLess(SelTuple(r.a, r.ta), SelTuple(r.b, r.tb)) IN
              /\ r.m = SelMatches(r.a, r.b) /\ r.mb = (SelMatches(r.a, r.b) /\ r.tb \in {0, r.ta})
              /\ r.eq = same /\ (same => r.heq) /\ r.lt = lt /\ r.gt = (~lt /\ ~same) /\ r.rt
Match(r) == r.m = TopicMatches({<<r.filt[i][1], r.filt[i][2]>> : i \in 1..Len(r.filt)}, r.ns, SetOf(r.np), r.ss, SetOf(r.sp))
\* well-known types (name, extension)
WellKnown == {<<<<116,101,120,116,47,104,116,109,108>>, <<46,104,116,109,108>>>>,                                 \* text/html .html
              <<<<97,112,112,108,105,99,97,116,105,111,110,47,106,115,111,110>>, <<46,106,115,111,110>>>>,         \* application/json .json
              <<<<116,101,120,116,47,112,108,97,105,110>>, <<46,116,120,116>>>>,                                  \* text/plain .txt
              <<<<105,109,97,103,101,47,112,110,103>>, <<46,112,110,103>>>>,                                      \* image/png .png
              <<<<97,112,112,108,105,99,97,116,105,111,110,47,111,99,116,101,116,45,115,116,114,101,97,109>>, <<46,98,105,110>>>>} \* application/octet-stream .bin
Table(r) == /\ \A i \in 1..Len(r.tab) : TypeOf(r.tab, r.tab[i].n) = r.tab[i].n
            /\ \A i \in 1..Len(r.tab) : \A k \in 1..Len(r.tab[i].e) : TypeOfFile(r.tab, <<102>> \o r.tab[i].e[k]) = r.tab[i].n
            /\ \A w \in WellKnown : TypeOf(r.tab, w[1]) = w[1] /\ TypeOfFile(r.tab, <<102>> \o w[2]) = w[1]
Mime(r) == r.got = TypeOf(Recs[1].tab, r.in) /\ r.fgot = TypeOfFile(Recs[1].tab, r.f)
Ok(r) == CASE r.k = "text" -> Text(r) [] r.k = "pair" -> Pair(r) [] r.k = "twice" -> r.res = "err" [] r.k = "sel" -> Sel(r) [] r.k = "long" -> r.m /\ ~r.n [] r.k = "selpair" -> SelPair(r)
           [] r.k = "match" -> Match(r) [] r.k = "table" -> Table(r) [] r.k = "mime" -> Mime(r)
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
