---- MODULE TC28 ----
EXTENDS Listing
====
