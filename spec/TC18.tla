---- MODULE TC18 ----
EXTENDS TPipe
====
