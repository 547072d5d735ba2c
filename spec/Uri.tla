-------------------------------- MODULE Uri --------------------------------
(* Generic URI syntax as implemented by the URI class: [scheme:][//authority][path][?query][#fragment]           *)
(* with authority = [user[:password]@]host[:port]. A component that is absent or empty is reported as absent.    *)
EXTENDS Bytes
Colon == 58  Slash == 47  Quest == 63  Hash == 35  At == 64  Pct == 37  Eq == 61  Amp == 38  Semi == 59
Unreserved == Alnum \cup {45, 46, 95, 126}                                 \* - . _ ~
UriChars   == Unreserved \cup {58, 47, 63, 35, 91, 93, 64, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 37}
AuthChars  == Alnum \cup {64, 58, 46, 45, 95, 42, 91, 93}                   \* @ : . - _ * [ ]
PathChars  == Alnum \cup {47, 46, 45, 95}                                   \* / . - _
QueryChars == Unreserved \cup {38, 59, 61, 37, 58, 47}                      \* & ; = % : /

HasScheme(s) == LET i == FirstIn(s, {Colon}) IN i <= Len(s) /\ i < FirstIn(s, {Slash, Quest, Hash})
\* inputs the grammar covers; anything else is a scheme-less relative reference, for which only safety is specified
InDomain(s) == s = <<>> \/ s[1] \in {Slash, Quest, Hash} \/ HasScheme(s)

Components(s) ==
  LET hs      == s # <<>> /\ s[1] # Slash /\ HasScheme(s)
      c1      == FirstIn(s, {Colon})
      p0      == IF hs THEN c1 + 1 ELSE 1                       \* first position after the scheme
      hasAuth == hs /\ Len(s) >= p0 + 1 /\ s[p0] = Slash /\ s[p0 + 1] = Slash
      a1      == IF hasAuth THEN FirstInFrom(s, {Slash, Quest, Hash}, p0 + 2) ELSE p0
      pe      == FirstInFrom(s, {Quest, Hash}, a1)
      hasQ    == pe <= Len(s) /\ s[pe] = Quest
      qe      == IF hasQ THEN FirstInFrom(s, {Hash}, pe) ELSE pe
  IN [scheme    |-> IF hs THEN SubSeq(s, 1, c1 - 1) ELSE <<>>,
      authority |-> IF hasAuth THEN SubSeq(s, p0 + 2, a1 - 1) ELSE <<>>,
      path      |-> SubSeq(s, a1, pe - 1),
      query     |-> IF hasQ THEN SubSeq(s, pe + 1, qe - 1) ELSE <<>>,
      fragment  |-> IF qe <= Len(s) THEN From(s, qe + 1) ELSE <<>>]

Authority(a) ==
  LET at   == FirstIn(a, {At})
      hasU == at <= Len(a)
      cu   == FirstIn(a, {Colon})
      us   == IF hasU THEN (IF cu < at THEN cu ELSE at) ELSE 1   \* end of user name (exclusive)
      h0   == IF hasU THEN at + 1 ELSE 1
      rb   == IF h0 <= Len(a) /\ a[h0] = 91 THEN FirstInFrom(a, {93}, h0) ELSE h0   \* bracketed IP literal
      pc   == FirstInFrom(a, {Colon}, IF rb <= Len(a) THEN rb ELSE h0)
  IN [user |-> IF hasU THEN SubSeq(a, 1, us - 1) ELSE <<>>,
      pwd  |-> IF hasU /\ us < at THEN SubSeq(a, us + 1, at - 1) ELSE <<>>,
      host |-> SubSeq(a, h0, pc - 1),
      port |-> IF pc <= Len(a) THEN From(a, pc + 1) ELSE <<>>]
PortVal(p) == IF p # <<>> /\ AllIn(p, Digit) /\ DecVal(p) <= 65535 THEN <<DecVal(p)>> ELSE <<>>

StrictOk(s) == LET c == Components(s) IN AllIn(s, UriChars) /\ AllIn(c.scheme, Alnum) /\ AllIn(c.authority, AuthChars) /\ AllIn(c.path, PathChars)
Accepts(check, s) == check = "relaxed" \/ StrictOk(s)

\* relative reference: path (made absolute) + query (+ fragment, percent-encoded)
---------------------------------------------------------------------------
EncChar(c) == IF c \in Unreserved THEN <<c>> ELSE <<Pct, HexUp(c \div 16), HexUp(c % 16)>>
Encode(s) == Concat([i \in 1..Len(s) |-> EncChar(s[i])])
\* decoding: a record [ok, s]; malformed escapes are an error (strict) or literal text (relaxed)
RECURSIVE DecodeR(_, _, _)
DecodeR(check, s, i) ==
  IF i > Len(s) THEN [ok |-> TRUE, s |-> <<>>]
  ELSE IF s[i] # Pct THEN LET r == DecodeR(check, s, i + 1) IN [ok |-> r.ok, s |-> <<s[i]>> \o r.s]
  ELSE IF i + 2 <= Len(s) /\ s[i + 1] \in HexD /\ s[i + 2] \in HexD
       THEN LET r == DecodeR(check, s, i + 3) IN [ok |-> r.ok, s |-> <<16 * HexVal(s[i + 1]) + HexVal(s[i + 2])>> \o r.s]
  ELSE IF check = "strict" THEN [ok |-> FALSE, s |-> <<>>]
  ELSE LET r == DecodeR(check, s, i + 1) IN [ok |-> r.ok, s |-> <<Pct>> \o r.s]
Decode(check, s) == DecodeR(check, s, 1)
WellEscaped(s) == \A i \in 1..Len(s) : s[i] = Pct => i + 2 <= Len(s) /\ s[i + 1] \in HexD /\ s[i + 2] \in HexD

RelRef(c, withFragment) ==
  LET slash == IF c.path # <<>> /\ c.path[1] # Slash THEN <<Slash>> ELSE <<>>
      qm    == IF c.query # <<>> /\ c.query[1] # Quest THEN <<Quest>> ELSE <<>>
      hm    == IF c.fragment # <<>> /\ c.fragment[1] # Hash THEN <<Hash>> ELSE <<>>
  IN slash \o c.path \o qm \o c.query \o (IF withFragment THEN hm \o Encode(c.fragment) ELSE <<>>)

---------------------------------------------------------------------------
(* query: items separated by & or ;  item = key | key=value (value up to the next separator, may contain =)      *)
QueryItems(q) == LET parts == SplitAt(q, {Amp, Semi})
                 IN IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts) - 1) ELSE parts   \* nothing after a final separator
ItemKey(it) == SubSeq(it, 1, FirstIn(it, {Eq}) - 1)
ItemVal(it) == From(it, FirstIn(it, {Eq}) + 1)
QueryOk(check, q) == check = "relaxed" \/ (AllIn(q, QueryChars) /\ WellEscaped(q))
\* the map as a set of <<key, value>>; last occurrence of a key wins; a missing and an empty value are identified (<<>>)
QueryMap(check, q) ==
  LET it == QueryItems(q)
      K(i) == Decode(check, ItemKey(it[i])).s
      V(i) == Decode(check, ItemVal(it[i])).s
  IN {<<K(i), V(i)>> : i \in {j \in 1..Len(it) : \A k \in (j + 1)..Len(it) : K(k) # K(j)}}
=============================================================================
