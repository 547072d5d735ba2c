------------------------------ MODULE JsonText ------------------------------
(* RFC 8259 texts over byte strings. Parse gives [k, v]: o <<key, value>>.., a values, s text (UTF-8 bytes), n normalised number, b 0/1, z; or bad. *)
EXTENDS Bytes, TLC
Blank == {9, 10, 13, 32}
RECURSIVE Ws(_, _)
Ws(t, i) == IF i <= Len(t) /\ t[i] \in Blank THEN Ws(t, i + 1) ELSE i
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Bad == [k |-> "bad", v |-> 0, n |-> 0]
--------------------------------------------------------------------------------
(* numbers: 0.d1d2.. * 10^e as <<negative, <<d1, ..>>, e>> *)
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ s[1] = 0 THEN DropZeros(Tail(s)) ELSE s
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Norm(neg, int, frac, e) == LET all == [i \in 1..(Len(int) + Len(frac)) |-> (int \o frac)[i] - 48]
                               d == DropZeros(all) IN
                           IF d = <<>> THEN <<neg, <<>>, 0>> ELSE <<neg, TrimZeros(d), e + Len(int) - (Len(all) - Len(d))>>
NormInt(n) == Norm(0, DecStr(n), <<>>, 0)                            \* n >= 0
Digits(t, i) == SubSeq(t, i, CHOOSE j \in i - 1..Len(t) : (\A l \in i..j : t[l] \in Digit) /\ At(t, j + 1) \notin Digit)
Number(t, i) ==
   LET neg == IF At(t, i) = 45 THEN 1 ELSE 0
       i1 == i + neg
       int == Digits(t, i1) i2 == i1 + Len(int)
       frac == IF At(t, i2) = 46 THEN Digits(t, i2 + 1) ELSE <<>>
       i3 == IF At(t, i2) = 46 THEN i2 + 1 + Len(frac) ELSE i2
       hasE == At(t, i3) \in {69, 101}
       sg == IF hasE /\ At(t, i3 + 1) \in {43, 45} THEN 1 ELSE 0
       ex == IF hasE THEN Digits(t, i3 + 1 + sg) ELSE <<>>
       i4 == IF hasE THEN i3 + 1 + sg + Len(ex) ELSE i3
       e == IF At(t, i3 + 1) = 45 THEN -DecVal(ex) ELSE DecVal(ex)
   IN IF int = <<>> \/ (int[1] = 48 /\ Len(int) > 1) \/ (At(t, i2) = 46 /\ frac = <<>>) \/ (hasE /\ ex = <<>>) THEN Bad
      ELSE [k |-> "n", v |-> Norm(neg, int, frac, IF hasE THEN e ELSE 0), n |-> i4]
--------------------------------------------------------------------------------
(* strings *)
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Hex4(t, i) == IF i + 3 <= Len(t) /\ \A l \in i..i + 3 : t[l] \in HexD THEN 4096 * HexVal(t[i]) + 256 * HexVal(t[i + 1]) + 16 * HexVal(t[i + 2]) + HexVal(t[i + 3]) ELSE -1
High(c) == c \in 55296..56319
Low(c) == c \in 56320..57343
RECURSIVE Chars(_, _, _)
\* the rest of a string from i on, acc read already
Chars(t, i, acc) ==
   LET j == FirstInFrom(t, {34, 92} \cup (0..31), i) IN
   IF j > Len(t) THEN Bad
   ELSE LET plain == acc \o SubSeq(t, i, j - 1) IN
   IF t[j] = 34 THEN [k |-> "s", v |-> plain, n |-> j + 1]
   ELSE IF t[j] < 32 THEN Bad
   ELSE LET c == At(t, j + 1) IN
        CASE c \in {34, 92, 47} -> Chars(t, j + 2, Append(plain, c))
          [] c = 98 -> Chars(t, j + 2, Append(plain, 8))
          [] c = 102 -> Chars(t, j + 2, Append(plain, 12))
          [] c = 110 -> Chars(t, j + 2, Append(plain, 10))
          [] c = 114 -> Chars(t, j + 2, Append(plain, 13))
          [] c = 116 -> Chars(t, j + 2, Append(plain, 9))
          [] c = 117 -> LET u == Hex4(t, j + 2) w == IF At(t, j + 6) = 92 /\ At(t, j + 7) = 117 THEN Hex4(t, j + 8) ELSE -1 IN
                        IF u < 0 THEN Bad
                        ELSE IF High(u) /\ Low(w) THEN Chars(t, j + 12, plain \o Utf8(65536 + 1024 * (u - 55296) + (w - 56320)))
                        ELSE Chars(t, j + 6, plain \o Utf8(IF High(u) \/ Low(u) THEN 65533 ELSE u))
          [] OTHER -> Bad
--------------------------------------------------------------------------------
Word(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
RECURSIVE Value(_, _)
RECURSIVE Items(_, _, _)
RECURSIVE Members(_, _, _)
Value(t, i) == LET c == At(t, i) IN
   CASE c = 123 -> LET j == Ws(t, i + 1) IN IF At(t, j) = 125 THEN [k |-> "o", v |-> <<>>, n |-> j + 1] ELSE Members(t, j, <<>>)
     [] c = 91 -> LET j == Ws(t, i + 1) IN IF At(t, j) = 93 THEN [k |-> "a", v |-> <<>>, n |-> j + 1] ELSE Items(t, j, <<>>)
     [] c = 34 -> Chars(t, i + 1, <<>>)
     [] c = 116 -> IF Word(t, i, <<116,114,117,101>>) THEN [k |-> "b", v |-> 1, n |-> i + 4] ELSE Bad
     [] c = 102 -> IF Word(t, i, <<102,97,108,115,101>>) THEN [k |-> "b", v |-> 0, n |-> i + 5] ELSE Bad
     [] c = 110 -> IF Word(t, i, <<110,117,108,108>>) THEN [k |-> "z", v |-> 0, n |-> i + 4] ELSE Bad
     [] OTHER -> Number(t, i)
Items(t, i, acc) == LET x == Value(t, i) IN IF x.k = "bad" THEN Bad ELSE
   LET j == Ws(t, x.n) IN CASE At(t, j) = 44 -> Items(t, Ws(t, j + 1), Append(acc, x)) [] At(t, j) = 93 -> [k |-> "a", v |-> Append(acc, x), n |-> j + 1] [] OTHER -> Bad
Members(t, i, acc) == IF At(t, i) # 34 THEN Bad ELSE LET key == Chars(t, i + 1, <<>>) IN IF key.k = "bad" THEN Bad ELSE
   LET j == Ws(t, key.n) IN IF At(t, j) # 58 THEN Bad ELSE
   LET x == Value(t, Ws(t, j + 1)) IN IF x.k = "bad" THEN Bad ELSE
   LET l == Ws(t, x.n) IN CASE At(t, l) = 44 -> Members(t, Ws(t, l + 1), Append(acc, <<key.v, x>>)) [] At(t, l) = 125 -> [k |-> "o", v |-> Append(acc, <<key.v, x>>), n |-> l + 1] [] OTHER -> Bad
Parse(t) == LET x == Value(t, Ws(t, 1)) IN IF x.k = "bad" \/ Ws(t, x.n) # Len(t) + 1 THEN Bad ELSE x
=============================================================================
