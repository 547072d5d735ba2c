----------------------------- MODULE IoBufModel -----------------------------
(* The buffers of IoBuf.tla as a state machine: whatever happened before, what is put is got back; reading never leaves the bytes. *)
EXTENDS IoBuf
CONSTANT Deep
VARIABLE B
Max == IF Deep THEN 9 ELSE 7
Texts == {<<>>, <<0>>, <<97>>}
Ops == {<<"putn", <<1, <<7>>>>>>, <<"putn", <<0, <<>>>>>>, <<"raw", <<200>>>>, <<"getn", 1>>, <<"getn", 0>>, <<"getv", <<1, 99>>>>, <<"skip", 1>>, <<"skip", 3>>, <<"clear", 0>>, <<"resize", 2>>, <<"pos", 0>>}
       \cup (IF Deep THEN {<<"putv", <<1, <<<<1>>>>>>>>} ELSE {})
Pair == IF Deep THEN {<<"copy", 0>>, <<"move", 0>>, <<"swap", 0>>} ELSE {}
Init == B = Start
Next == \E b \in {0} : \E o \in Ops \cup Pair : LET q == Apply(B, b, o[1], o[2]) IN (\A i \in 0..2 : Len(q[1][i][2]) <= Max) /\ B' = q[1]
Spec == Init /\ [][Next]_B
Inside == \A i \in 0..2 : B[i][1] <= Len(B[i][2]) \/ \E n \in 0..Max : B[i][1] = n     \* resizing may leave the position behind the end
PutGet == \A i \in 0..2 : LET d == B[i][2] IN
            /\ \A t \in Texts : Get(0, d \o Elem(0, t), Len(d)) = <<t, Len(d) + 5 + Len(t)>>
            /\ \A s \in {<<>>, <<<<1>>>>, <<<<1>>, <<2>>>>} : GetArray(1, d \o LE32(Len(s)) \o Elems(1, s, 1), Len(d), 99) = <<s, Len(d) + 4 + Len(s)>>
            /\ \A s \in {<<>>, <<<<>>, <<97>>>>} : GetArray(0, d \o LE32(Len(s)) \o Elems(0, s, 1), Len(d), 99)[1] = s
NoOverread == \A i \in 0..2 : \A p \in 0..Max : LET d == B[i][2] g == Get(0, d, p) h == GetArray(1, d, p, 99) IN (g # <<>> => g[2] <= Len(d)) /\ (h # <<>> => h[2] <= Len(d))
=============================================================================
