------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of codes 0..255, and the character classes used by the text formats.              *)
EXTENDS Integers, Sequences, FiniteSets
Upper  == 65..90
Lower  == 97..122
Digit  == 48..57
Alpha  == Upper \cup Lower
Alnum  == Alpha \cup Digit
HexD   == Digit \cup (65..70) \cup (97..102)
Space  == {9, 10, 11, 12, 13, 32}

RECURSIVE FirstInFrom(_, _, _)
\* smallest index >= i whose element is in C, or Len(s)+1
FirstInFrom(s, C, i) == IF i > Len(s) THEN Len(s) + 1 ELSE IF s[i] \in C THEN i ELSE FirstInFrom(s, C, i + 1)
FirstIn(s, C) == FirstInFrom(s, C, 1)
AllIn(s, C) == \A i \in 1..Len(s) : s[i] \in C
SomeIn(s, C) == \E i \in 1..Len(s) : s[i] \in C
From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* split at every element of C: always at least one (possibly empty) piece
RECURSIVE SplitAt(_, _)
SplitAt(s, C) == LET i == FirstIn(s, C) IN IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + 1), C)
ToLower(s) == [i \in 1..Len(s) |-> IF s[i] \in Upper THEN s[i] + 32 ELSE s[i]]
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE DecVal(_)
\* value of a digit string, saturated at 1000000000 (TLC integers are 32 bit)
DecVal(s) == IF s = <<>> THEN 0 ELSE LET p == DecVal(SubSeq(s, 1, Len(s) - 1)) IN IF p > 99999999 THEN 1000000000 ELSE 10 * p + (s[Len(s)] - 48)
RECURSIVE DecStr(_)
DecStr(n) == IF n < 10 THEN <<48 + n>> ELSE DecStr(n \div 10) \o <<48 + (n % 10)>>
Opt(s) == IF s = <<>> THEN <<>> ELSE <<s>>     \* an accessor reports an empty component as "absent"
Range(f) == {f[x] : x \in DOMAIN f}
=============================================================================
