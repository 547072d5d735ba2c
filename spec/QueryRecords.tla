---------------------------- MODULE QueryRecords ----------------------------
(* Request contexts as query parameters: what query::serialise wrote and query::deserialise read.                         *)
(* A field is <<name, kind, text>>, a parameter <<name, <<>>>> (no value) or <<name, <<text>>>>.                           *)
EXTENDS Topic, Records
True == <<116, 114, 117, 101>>  False == <<102, 97, 108, 115, 101>>
Max64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>  Min64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
Bounds(kind) == CASE kind = "i16" -> <<Max16, Min16>> [] kind = "i64" -> <<Max64, Min64>> [] kind = "u8" -> <<<<50, 53, 53>>, <<48>>>> [] OTHER -> <<Max32, Min32>>
IntKinds == {"i16", "i32", "i64", "u8"}
ReadsInt(kind, t) == IsInt(t) /\ Fits(NormInt(t), Bounds(kind)[1], Bounds(kind)[2]) /\ (kind = "u8" => t[1] # 45)
SameNumber(a, b) == Dec(a).ok /\ Dec(b).ok /\ DecNorm(Dec(a)) = DecNorm(Dec(b))
\* got is what a field with the default d may be after the parameters M were read
Reads(M, f, d, got, tab) == LET P == {m \in M : m[1] = f[1]} kind == f[2] IN
   IF P = {} THEN got = d ELSE
   LET p == (CHOOSE m \in P : TRUE)[2] IN
   IF p = <<>> THEN IF kind = "bool" THEN got = True ELSE got = d
   ELSE LET t == p[1] IN CASE kind = "str" -> got = t
                           [] kind = "bool" -> got = (IF t \in {True, False} THEN t ELSE d)
                           [] kind \in IntKinds -> got = (IF ReadsInt(kind, t) THEN NormInt(t) ELSE d)
                           [] kind = "num" -> IF Dec(t).ok THEN SameNumber(got, t) ELSE got = d
                           [] kind = "mime" -> got = TypeOf(tab, t)
                           [] kind = "time" -> IF SelOk(t) THEN got = SelText(t) ELSE got = d
SetOf(m) == {m[i] : i \in 1..Len(m)}
Names(r) == {r.dflt[i][1] : i \in 1..Len(r.dflt)}
Read(r, tab) == Len(r.got) = Len(r.dflt) /\ \A i \in 1..Len(r.dflt) : r.got[i][1] = r.dflt[i][1] /\ Reads(SetOf(r.map), r.dflt[i], r.dflt[i][3], r.got[i][3], tab)
\* a written field: flags that are not set are left out, a set flag has no value
WrittenField(f, M) == LET P == {m \in M : m[1] = f[1]} IN
   IF f[2] = "bool" THEN P = (IF f[3] = True THEN {<<f[1], <<>>>>} ELSE {})
   ELSE Cardinality(P) = 1 /\ \A m \in P : Len(m[2]) = 1 /\ (IF f[2] = "num" THEN SameNumber(m[2][1], f[3]) ELSE m[2][1] = f[3])
Write(r) == LET M == SetOf(r.map) IN /\ \A m \in M : m[1] \in Names(r) /\ \A i \in 1..Len(r.val) : WrittenField(r.val[i], M)
\* the content type of a context is its first member of this type
FirstMime(v) == LET I == {i \in 1..Len(v) : v[i][2] = "mime"} IN v[CHOOSE i \in I : \A j \in I : i <= j][3]
Ok(r) == CASE r.k = "table" -> TRUE
           [] r.k = "read" -> Read(r, Recs[1].tab) /\ r.mime = FirstMime(r.got) /\ r.none = 1
           [] r.k = "write" -> Write(r) /\ Read(r, Recs[1].tab) /\ r.mime = FirstMime(r.got) /\ r.back = 1
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
