---- MODULE TC20 ----
EXTENDS TPipe
====
