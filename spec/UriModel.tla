------------------------------ MODULE UriModel ------------------------------
(* Theorems about the URI specification itself, checked for every string up to MaxLen over a small alphabet.     *)
EXTENDS Uri, TLC
CONSTANT MaxLen
VARIABLE s
Alphabet == {97, Colon, Slash, Quest, Hash, At, Pct, 50, Eq, Amp}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in Alphabet : s' = Append(s, x)
Spec == Init /\ [][Next]_s
Reassemble(c) == LET has(x) == x # <<>> IN
   (IF has(c.scheme) THEN c.scheme \o <<Colon>> ELSE <<>>) \o (IF has(c.authority) THEN <<Slash, Slash>> \o c.authority ELSE <<>>)
   \o c.path \o (IF has(c.query) THEN <<Quest>> \o c.query ELSE <<>>) \o (IF has(c.fragment) THEN <<Hash>> \o c.fragment ELSE <<>>)
\* the components together contain every character of the URI except delimiters
Delims == {Colon, Slash, Quest, Hash}
Partition == InDomain(s) => LET c == Components(s) IN
   Len(s) - Len(c.scheme \o c.authority \o c.path \o c.query \o c.fragment) \in 0..5
\* no empty-but-present component: then reassembling gives the URI back
Reassembles == (InDomain(s) /\ Len(Reassemble(Components(s))) = Len(s)) => Reassemble(Components(s)) = s
RoundTrip == Decode("strict", Encode(s)) = [ok |-> TRUE, s |-> s]
EncodedSafe == AllIn(Encode(s), Unreserved \cup {Pct}) /\ WellEscaped(Encode(s))
QueryTheorems == /\ (QueryMap("relaxed", s) = {}) = (QueryItems(s) = <<>>)
                 /\ QueryMap("relaxed", s \o <<Amp>>) = QueryMap("relaxed", IF s # <<>> THEN s \o <<Semi>> ELSE <<Semi>>)
                 /\ \A e, f \in QueryMap("relaxed", s) : e[1] = f[1] => e = f
=============================================================================
