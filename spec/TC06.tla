---- MODULE TC06 ----
EXTENDS TDemand
====
