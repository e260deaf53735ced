---- MODULE TC05 ----
EXTENDS TDemand
====
