---- MODULE UndersampleMC ----
EXTENDS Undersample
====
