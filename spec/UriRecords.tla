----------------------------- MODULE UriRecords -----------------------------
(* What the URI class reported, judged against Uri.tla                                                          *)
EXTENDS Uri, Records
CONSTANT Kind

AccOk(r, s) == LET c == Components(s) a == Authority(c.authority) IN
  /\ r.str = s /\ r.scheme = Opt(c.scheme) /\ r.authority = Opt(c.authority) /\ r.path = Opt(c.path)
  /\ r.query = Opt(c.query) /\ r.fragment = Opt(c.fragment)
  /\ r.user = Opt(a.user) /\ r.pwd = Opt(a.pwd) /\ r.host = Opt(a.host) /\ r.port = PortVal(a.port)
  /\ r.relref = Opt(RelRef(c, TRUE)) /\ r.relrefnf = Opt(RelRef(c, FALSE))
\* scheme-less relative references: only that they are kept verbatim and that nothing but a syntax error is raised
Parse(r) == /\ r.res \in {"ok", "syntax"}
            /\ r.res = "ok" => r.str = r.in
            /\ InDomain(r.in) => /\ r.res = (IF Accepts(r.check, r.in) THEN "ok" ELSE "syntax")
                                 /\ r.res = "ok" => AccOk(r, r.in)
            /\ (r.check = "strict" /\ ~AllIn(r.in, UriChars)) => r.res = "syntax"
AnyBytes(r) == Parse(r)

Codec(r) == LET d == Decode(r.check, r.in) IN
            /\ r.enc = Encode(r.in) /\ AllIn(r.enc, Unreserved \cup {Pct})
            /\ r.rres = "ok" /\ r.rt = r.in
            /\ r.res = (IF d.ok THEN "ok" ELSE "syntax") /\ (d.ok => r.dec = d.s)

MapOf(m) == {<<m[i][1], m[i][2]>> : i \in 1..Len(m)}
Query(r) == LET q == Components(r.in).query IN
            IF ~Accepts(r.check, r.in) THEN r.res = "syntax"
            ELSE IF ~QueryOk(r.check, q) THEN r.res = "qsyntax"
            ELSE r.res = "ok" /\ MapOf(r.map) = QueryMap(r.check, q) /\ Len(r.map) = Cardinality(QueryMap(r.check, q)) /\ MapOf(r.map2) = MapOf(r.map)

(* builder: expected text apart from the order of the added query parameters                                     *)
Auth(p) == IF p.auth # <<>> THEN p.auth
           ELSE (IF p.user # <<>> THEN p.user \o (IF p.pwd # <<>> THEN <<Colon>> \o p.pwd ELSE <<>>) \o <<At>> ELSE <<>>)
                \o p.host \o (IF p.port # <<>> THEN <<Colon>> \o DecStr(p.port[1]) ELSE <<>>)
Prefix(p) == (IF p.scheme # <<>> THEN p.scheme \o <<Colon>> ELSE <<>>)
             \o (IF Auth(p) # <<>> THEN <<Slash, Slash>> \o Auth(p) ELSE <<>>)
             \o (IF p.path # <<>> /\ p.path[1] # Slash /\ Auth(p) # <<>> THEN <<Slash>> ELSE <<>>) \o p.path
Suffix(p) == IF p.frag # <<>> THEN <<Hash>> \o Encode(p.frag) ELSE <<>>
AddItem(e) == Encode(e[1]) \o (IF e[2] # <<>> THEN <<Eq>> \o Encode(e[2][1]) ELSE <<>>)
AddItems(p) == {AddItem(p.q[i]) : i \in 1..Len(p.q)}
ExpMap(check, p) == LET raw == QueryMap(check, p.rawq)
                        add == {<<p.q[i][1], IF p.q[i][2] = <<>> THEN <<>> ELSE p.q[i][2][1]>> : i \in 1..Len(p.q)}
                    IN {e \in raw : \A f \in add : f[1] # e[1]} \cup add
BuildText(p, s) == LET pre == Prefix(p) suf == Suffix(p) IN
   /\ StartsWith(s, pre) /\ EndsWith(s, suf) /\ Len(s) >= Len(pre) + Len(suf)
   /\ LET mid == SubSeq(s, Len(pre) + 1, Len(s) - Len(suf)) IN
      IF p.rawq = <<>> /\ p.q = <<>> THEN mid = <<>>
      ELSE LET items == SplitAt(From(mid, 2), {Amp}) n == (IF p.rawq = <<>> THEN 0 ELSE 1) + Len(p.q) IN
           /\ mid[1] = Quest /\ Len(items) = n
           /\ Range(items) = AddItems(p) \cup (IF p.rawq = <<>> THEN {} ELSE {p.rawq})
Build(r) == LET p == r.in IN
   /\ BuildText(p, r.s)
   /\ IF ~Accepts(r.check, r.s) THEN r.res = "syntax"
      ELSE /\ r.res = "ok"
           /\ BuildText(p, r.again)                     \* asking twice, or a copy of the factory, gives the same URI
           /\ r.rebuilt = r.s                           \* parse followed by rebuild is the identity
           /\ AccOk(r, r.s)
           /\ MapOf(r.map) = ExpMap(r.check, p)         \* and the parsed URI has the components it was built from
           /\ LET c == Components(r.s) a == Authority(c.authority) IN
              /\ c.scheme = p.scheme /\ c.fragment = Encode(p.frag)
              /\ (p.auth = <<>> => a.user = p.user /\ a.host = p.host /\ PortVal(a.port) = p.port /\ a.pwd = (IF p.user = <<>> THEN <<>> ELSE p.pwd))

Value(r) == IF r.k = "rel" THEN /\ (r.eq = 1) = (r.in = r.b) /\ (r.lt = 1) = LexLess(r.in, r.b) /\ (r.gt = 1) = LexLess(r.b, r.in)
                                /\ (r.in = r.b => r.heq = 1)
            ELSE /\ r.str = r.in /\ (InDomain(r.in) => AccOk(r, r.in))
                 /\ LET q == Components(r.in).query IN
                    InDomain(r.in) => MapOf(r.map) = (IF QueryOk(r.check, q) THEN QueryMap(r.check, q) ELSE {})

Ok(r) == CASE Kind = "parse" -> Parse(r) [] Kind = "any" -> AnyBytes(r) [] Kind = "codec" -> Codec(r)
           [] Kind = "query" -> Query(r) [] Kind = "build" -> Build(r) [] Kind = "values" -> Value(r)
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
