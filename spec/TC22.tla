---- MODULE TC22 ----
EXTENDS TPipe
====
