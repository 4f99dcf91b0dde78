----------------------------- MODULE SelectionMC -----------------------------
EXTENDS Selection
=============================================================================
