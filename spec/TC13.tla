---- MODULE TC13 ----
EXTENDS TPipe
====
