---------------------------- MODULE IoBufRecords ----------------------------
EXTENDS IoBuf, Records
ArrayOk(r) == /\ r.n = Product(r.d, 1) /\ r.same = 1 /\ r.arith = 1 /\ r.neq = 1 /\ Len(r.all) = r.n
              /\ \A i \in 1..Len(r.all) : LET e == r.all[i] IN e[2] = RowMajor(r.d, e[1], 1) /\ e[3] = e[1] /\ e[4] = 999 + i
              /\ Cardinality({r.all[i][2] : i \in 1..Len(r.all)}) = r.n
Ok(r) == CASE r.k = "buf" -> r.clean = 1 /\ Follow(Start, r.ops, 1) [] r.k = "array" -> ArrayOk(r)
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
