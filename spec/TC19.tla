---- MODULE TC19 ----
EXTENDS TPipe
====
