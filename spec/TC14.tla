---- MODULE TC14 ----
EXTENDS TPipe
====
