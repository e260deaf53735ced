---- MODULE TC25 ----
EXTENDS TPipe
====
