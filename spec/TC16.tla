---- MODULE TC16 ----
EXTENDS TPipe
====
