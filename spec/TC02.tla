---- MODULE TC02 ----
EXTENDS TCity
====
