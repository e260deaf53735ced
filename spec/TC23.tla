---- MODULE TC23 ----
EXTENDS TPipe
====
