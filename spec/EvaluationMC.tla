----------------------------- MODULE EvaluationMC -----------------------------
EXTENDS Evaluation
=============================================================================
