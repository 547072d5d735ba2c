--------------------------- MODULE Base64Records ---------------------------
EXTENDS Base64, Records
Ok(r) == IF r.k = "enc" THEN r.out = B64Encode(r.in) /\ r.ok = 1 /\ r.back = r.in
         ELSE IF B64Valid(r.in) THEN r.ok = 1 /\ r.out = B64Decode(r.in) ELSE r.ok = 0
RecSpec == RecInit /\ [][Judge(Ok)]_rvars
=============================================================================
