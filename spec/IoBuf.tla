------------------------------- MODULE IoBuf -------------------------------
(* Three byte buffers with a read position each, and the operations on them. A number is written as its bytes (width w > 0), a text *)
(* (w = 0) as length + 1, bytes and a zero byte, an array as its length and its elements. A buffer is <<position, bytes>>.          *)
EXTENDS Integers, Sequences, FiniteSets
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Elem(w, v) == IF w = 0 THEN LE32(Len(v) + 1) \o v \o <<0>> ELSE v
RECURSIVE Elems(_, _, _)
Elems(w, vs, k) == IF k > Len(vs) THEN <<>> ELSE Elem(w, vs[k]) \o Elems(w, vs, k + 1)
\* what is read at position p (0-based) of d: <<value, next position>> or <<>> (an error)
Large == 1000000000
Int32(d, p) == IF p + 4 > Len(d) THEN -Large ELSE IF d[p + 4] >= 128 THEN -1 ELSE IF d[p + 4] > 50 THEN Large ELSE d[p + 1] + (256 * d[p + 2]) + (65536 * d[p + 3]) + (16777216 * d[p + 4])
Get(w, d, p) == IF w > 0 THEN IF p + w <= Len(d) THEN <<SubSeq(d, p + 1, p + w), p + w>> ELSE <<>>
                ELSE LET n == Int32(d, p) IN IF n < 1 \/ n > Len(d) - p - 4 THEN <<>> ELSE <<SubSeq(d, p + 5, p + 3 + n), p + 4 + n>>
RECURSIVE GetN(_, _, _, _, _)
GetN(w, d, p, n, acc) == IF n = 0 THEN <<acc, p>> ELSE LET g == Get(w, d, p) IN IF g = <<>> THEN <<>> ELSE GetN(w, d, g[2], n - 1, Append(acc, g[1]))
GetArray(w, d, p, lim) == LET n == Int32(d, p) IN IF n < 0 THEN <<>> ELSE LET k == IF n < lim THEN n ELSE lim IN
                          IF lim = 99 /\ n > 99 THEN (IF n > Len(d) THEN <<>> ELSE GetN(w, d, p + 4, n, <<>>)) ELSE IF k > Len(d) THEN <<>> ELSE GetN(w, d, p + 4, k, <<>>)
Fill(n) == [i \in 1..n |-> 170]
At(d, i) == IF i + 4 <= Len(d) THEN <<SubSeq(d, i + 1, i + 4)>> ELSE <<"err">>
Text(d, i, n) == IF i > Len(d) \/ (n >= 0 /\ i + n > Len(d)) THEN <<"err">> ELSE IF n < 0 THEN <<SubSeq(d, i + 1, Len(d))>> ELSE <<SubSeq(d, i + 1, i + n)>>
\* operation <<buffer, name, argument>> on B (0..2 -> <<pos, bytes>>): <<buffers, result>>
Took(B, x, g) == IF g = <<>> THEN <<[B EXCEPT ![x][1] = 0], <<"err">>>> ELSE <<[B EXCEPT ![x][1] = g[2]], <<g[1]>>>>
Apply(B, x, o, a) ==
   LET p == B[x][1] d == B[x][2] IN
   CASE o = "putn" -> <<[B EXCEPT ![x][2] = @ \o Elem(a[1], a[2])], <<>>>>
     [] o = "putv" -> <<[B EXCEPT ![x][2] = @ \o LE32(Len(a[2])) \o Elems(a[1], a[2], 1)], <<>>>>
     [] o = "raw" -> <<[B EXCEPT ![x][2] = @ \o a], <<>>>>
     [] o = "getn" -> Took(B, x, Get(a, d, p))
     [] o = "getv" -> Took(B, x, GetArray(a[1], d, p, a[2]))
     [] o = "skip" -> IF p + a \in 0..Len(d) THEN <<[B EXCEPT ![x][1] = p + a], <<1>>>> ELSE <<[B EXCEPT ![x][1] = 0], <<"err">>>>
     [] o = "pos" -> <<[B EXCEPT ![x][1] = a], <<>>>>
     [] o = "clear" -> <<[B EXCEPT ![x] = <<0, <<>>>>], <<>>>>
     [] o = "resize" -> <<[B EXCEPT ![x][2] = IF a <= Len(d) THEN SubSeq(d, 1, a) ELSE d \o Fill(a - Len(d))], <<>>>>
     [] o = "same" -> <<B, <<>>>>
     [] o = "copy" -> <<[B EXCEPT ![x] = B[a]], <<>>>>
     [] o = "move" -> IF a = x THEN <<B, <<>>>> ELSE <<[B EXCEPT ![x] = B[a], ![a] = <<0, <<>>>>], <<>>>>
     [] o = "swap" -> <<[B EXCEPT ![x] = B[a], ![a] = B[x]], <<>>>>
     [] o = "at" -> <<B, At(d, a)>>
     [] o = "str" -> <<B, Text(d, a[1], a[2])>>
State(B) == [i \in 1..3 |-> <<1, B[i - 1][1], B[i - 1][2]>>]
RECURSIVE Follow(_, _, _)
Follow(B, ops, k) == IF k > Len(ops) THEN TRUE ELSE LET q == Apply(B, ops[k][1], ops[k][2], ops[k][3]) IN q[2] = ops[k][4] /\ State(q[1]) = ops[k][5] /\ Follow(q[1], ops, k + 1)
Start == [i \in 0..2 |-> <<0, <<>>>>]
--------------------------------------------------------------------------------
(* multi-arrays: row-major *)
RECURSIVE Product(_, _)
Product(d, k) == IF k > Len(d) THEN 1 ELSE d[k] * Product(d, k + 1)
RECURSIVE RowMajor(_, _, _)
RowMajor(d, at, k) == IF k > Len(d) THEN 0 ELSE at[k] * Product(d, k + 1) + RowMajor(d, at, k + 1)
=============================================================================
