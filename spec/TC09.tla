---- MODULE TC09 ----
EXTENDS TLines
====
