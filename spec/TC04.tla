---- MODULE TC04 ----
EXTENDS TModes
====
