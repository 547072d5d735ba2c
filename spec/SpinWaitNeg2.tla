---- MODULE SpinWaitNeg2 ----
EXTENDS SpinWait
TO == -2
====
