---- MODULE TC17 ----
EXTENDS TPipe
====
