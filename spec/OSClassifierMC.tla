----------------------------- MODULE OSClassifierMC -----------------------------
EXTENDS OSClassifier
=============================================================================
