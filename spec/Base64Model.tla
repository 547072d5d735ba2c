---------------------------- MODULE Base64Model ----------------------------
(* bytes are appended one by one: the codec theorems hold for every byte string reached                          *)
EXTENDS Base64
CONSTANTS MaxLen, Sample
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in (IF Len(s) < 1 THEN 0..255 ELSE Sample) : s' = Append(s, b)
Spec == Init /\ [][Next]_s
RoundTrip == B64Valid(B64Encode(s)) /\ B64Decode(B64Encode(s)) = s
Canonical == Len(B64Encode(s)) = ((Len(s) + 2) \div 3) * 4 /\ (Pads(B64Encode(s)) = (3 - (Len(s) % 3)) % 3)
=============================================================================
