---- MODULE TC10 ----
EXTENDS TLines
====
