---- MODULE TC08 ----
EXTENDS TModes
====
