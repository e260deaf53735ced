---- MODULE TC12 ----
EXTENDS TLines
====
