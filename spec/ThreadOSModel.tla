--------------------------- MODULE ThreadOSModel ---------------------------
EXTENDS ThreadOS
T == {0, 1}
B == {"ok", "error"}
Masks == UNION {[1..n -> {0, 1}] : n \in 0..NCpu + 1}
Init == OInit(T)
Next == \E t \in T \cup {-1}, e \in BOOLEAN, r \in B :
          \/ \E n \in {<<>>, <<97>>, <<97, 97, 97>>} : SetName(t, n, e, r)
          \/ \E m \in Masks : SetMask(t, m, e, r) \/ SetPMask(t >= 0, m, e, r)
          \/ \E p \in {Other, Fifo, 7}, q \in {0, 1, 100} : SetSched(t, p, q, e, r) \/ SetPSched(t >= 0, p, q, e, r)
Spec == Init /\ [][Next]_ovars
Sane == /\ \A t \in T : Len(name[t]) <= MaxName /\ UsesSome(mask[t]) /\ ValidSched(sched[t][1], sched[t][2])
        /\ UsesSome(pmask) /\ ValidSched(psched[1], psched[2])
\* one operation touches one attribute of one thread
OneAtATime == [][Cardinality({x \in {"n", "m", "s", "pm", "ps"} : CASE x = "n" -> name' # name [] x = "m" -> mask' # mask [] x = "s" -> sched' # sched [] x = "pm" -> pmask' # pmask [] OTHER -> psched' # psched}) <= 1]_ovars
=============================================================================
