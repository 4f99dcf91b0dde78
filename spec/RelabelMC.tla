---- MODULE RelabelMC ----
EXTENDS Relabel
Targets == {-3, 0, 1, 7}
====
