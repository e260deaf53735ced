---- MODULE TC11 ----
EXTENDS TLines
====
