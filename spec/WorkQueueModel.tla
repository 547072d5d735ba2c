--------------------------- MODULE WorkQueueModel ---------------------------
EXTENDS WorkQueue
T3 == {1, 2, 3}
V3 == (1 :> <<1, 2>>) @@ (2 :> <<3, 0>>) @@ (3 :> <<-1, 0, -1>>)
=============================================================================
