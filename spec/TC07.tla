---- MODULE TC07 ----
EXTENDS TDemand
====
