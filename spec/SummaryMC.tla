------------------------------ MODULE SummaryMC ------------------------------
EXTENDS Summary
=============================================================================
