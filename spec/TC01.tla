---- MODULE TC01 ----
EXTENDS TCity
====
