----------------------------- MODULE TopicModel -----------------------------
(* Theorems of Topic.tla over small alphabets: canonical texts are injective, prefix free and can be read back; the     *)
(* matching of selectors is reflexive, transitive and consistent with their text.                                       *)
EXTENDS Topic
CONSTANT Deep
Alph == {97, Eq, Amp, Hash} \cup (IF Deep THEN {Pct, 98} ELSE {})
Words == {<<c>> : c \in Alph} \cup {<<c, d>> : c, d \in Alph}
Vals == {<<>>} \cup {<<c>> : c \in Alph}
Svcs == {<<Slash, 97>>, <<Slash, 97, 97>>}
ParSets == {{}} \cup {{<<k, v>>} : k \in Words, v \in Vals} \cup {{<<k, <<>>>>, <<l, v>>} : k \in {<<97>>, <<Amp>>, <<97, Eq>>}, l \in {<<98>>, <<Hash>>, <<97, Amp>>}, v \in Vals}
Nums == {<<48>>, <<49>>, <<45, 49>>}
SelParts == {<<c, Eq>> \o n : c \in Keys, n \in Nums}
Sels == {<<>>} \cup {Prefix \o p : p \in SelParts} \cup {Prefix \o p \o <<Colon>> \o q : p, q \in SelParts}
VARIABLE x
Init == x \in ({"topic"} \X Svcs \X ParSets) \cup ({"sel"} \X Sels \X {{}})
Spec == Init /\ [][UNCHANGED x]_x
T(P) == x[1] = "topic" => P
Injective == T(\A s \in Svcs, P \in ParSets : Canonical(x[2], x[3]) = Canonical(s, P) => s = x[2] /\ P = x[3])
PrefixFree == T(\A s \in Svcs, P \in ParSets : StartsWith(Canonical(s, P), Canonical(x[2], x[3])) => s = x[2] /\ P = x[3])
RoundTrip == T(LET b == Bare(x[2], x[3]) IN TopicOk(b) /\ ServiceOf(b) = x[2] /\ ParamsOf(b) = x[3])
SelTheorems == x[1] = "sel" => /\ SelOk(x[2]) /\ SelOk(SelText(x[2])) /\ SelSame(x[2], SelText(x[2])) /\ SelMatches(x[2], x[2])
                               /\ \A y \in Sels : (SelMatches(x[2], y) /\ SelMatches(y, x[2])) => SelSame(x[2], y)
                               /\ \A y, z \in {Prefix \o p : p \in SelParts} : (SelMatches(x[2], y) /\ SelMatches(y, z)) => SelMatches(x[2], z)
                               /\ \A y \in Sels : ~(TupleLess(SelTuple(x[2], 0), SelTuple(y, 0)) /\ TupleLess(SelTuple(y, 0), SelTuple(x[2], 0)))
=============================================================================
