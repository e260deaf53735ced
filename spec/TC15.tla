---- MODULE TC15 ----
EXTENDS TPipe
====
