---- MODULE TC26 ----
EXTENDS TPipe
====
