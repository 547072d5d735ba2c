------------------------------ MODULE Base64 ------------------------------
(* RFC 4648 base64 with mandatory padding.                                                                       *)
EXTENDS Integers, Sequences
\* character code of a 6-bit value and back (-1: not in the alphabet)
Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 43 ELSE 47
Val(ch) == IF ch \in 65..90 THEN ch - 65 ELSE IF ch \in 97..122 THEN ch - 97 + 26 ELSE IF ch \in 48..57 THEN ch - 48 + 52
           ELSE IF ch = 43 THEN 62 ELSE IF ch = 47 THEN 63 ELSE -1
PadCh == 61
Group(a, b, c) == LET w == a * 65536 + b * 256 + c IN
                  <<Char(w \div 262144), Char((w \div 4096) % 64), Char((w \div 64) % 64), Char(w % 64)>>
B64Encode(s) == LET n == Len(s) full == n \div 3 rest == n % 3
                    size == (full + (IF rest = 0 THEN 0 ELSE 1)) * 4
                    At(i) == IF i <= n THEN s[i] ELSE 0
                IN [k \in 1..size |-> LET g == (k - 1) \div 4 j == ((k - 1) % 4) + 1 IN
                       IF g = full /\ ((rest = 1 /\ j >= 3) \/ (rest = 2 /\ j = 4)) THEN PadCh
                       ELSE Group(At(3 * g + 1), At(3 * g + 2), At(3 * g + 3))[j]]
Pads(t) == LET n == Len(t) IN IF n = 0 \/ t[n] # PadCh THEN 0 ELSE IF t[n - 1] # PadCh THEN 1 ELSE 2
B64Valid(t) == /\ Len(t) % 4 = 0
               /\ \A i \in 1..(Len(t) - Pads(t)) : Val(t[i]) >= 0
B64Decode(t) == LET n == Len(t)
                    V(i) == IF t[i] = PadCh THEN 0 ELSE Val(t[i])
                    W(g) == V(4 * g + 1) * 262144 + V(4 * g + 2) * 4096 + V(4 * g + 3) * 64 + V(4 * g + 4)
                IN [k \in 1..((n \div 4) * 3 - Pads(t)) |-> LET g == (k - 1) \div 3 j == (k - 1) % 3 IN
                       (W(g) \div (IF j = 0 THEN 65536 ELSE IF j = 1 THEN 256 ELSE 1)) % 256]
=============================================================================
