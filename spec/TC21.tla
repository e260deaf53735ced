---- MODULE TC21 ----
EXTENDS TPipe
====
