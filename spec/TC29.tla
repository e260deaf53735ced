---- MODULE TC29 ----
EXTENDS Picture
====
