---- MODULE SpinWaitNeg1 ----
EXTENDS SpinWait
TO == -1
====
