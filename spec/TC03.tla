---- MODULE TC03 ----
EXTENDS TCity
====
