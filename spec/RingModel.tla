------------------------------ MODULE RingModel ------------------------------
(* Small instances of Ring for TLC: chain, diamond, worker pool in front, a group that joins late.              *)
EXTENDS Ring
CONSTANT Topo
G(b, gt, d, lt) == [batch |-> b, gate |-> gt, deps |-> d, late |-> lt]
C(m, gs) == [size |-> 2, mp |-> m, groups |-> gs]
Configs == CASE Topo = "one"   -> {C(m, <<G(TRUE, TRUE, <<>>, FALSE)>>) : m \in BOOLEAN}
             [] Topo = "two"   -> {C(m, <<G(TRUE, TRUE, <<>>, FALSE), G(TRUE, TRUE, <<>>, FALSE)>>) : m \in BOOLEAN}
             [] Topo = "late"  -> {C(m, <<G(TRUE, TRUE, <<>>, FALSE), G(TRUE, TRUE, <<>>, TRUE)>>) : m \in BOOLEAN}
             [] Topo = "chain" -> {C(m, <<G(TRUE, FALSE, <<>>, FALSE), G(TRUE, TRUE, <<1>>, FALSE)>>) : m \in BOOLEAN}
             [] Topo = "pool"  -> {C(m, <<G(FALSE, FALSE, <<>>, FALSE), G(TRUE, TRUE, <<1>>, FALSE)>>) : m \in BOOLEAN}
             [] Topo = "join"  -> {C(FALSE, <<G(TRUE, FALSE, <<>>, FALSE), G(TRUE, FALSE, <<>>, FALSE), G(TRUE, TRUE, <<1, 2>>, FALSE)>>)}
MInit == \E c \in Configs : RInit(c)
Terminated == Finished /\ UNCHANGED rvars
MSpec == MInit /\ [][Next \/ Terminated]_rvars
MLive == MSpec /\ WF_rvars(Next)
Progress == <>Finished
==============================================================================
