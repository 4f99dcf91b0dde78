------------------------------- MODULE CacheMC -------------------------------
EXTENDS TLC, Naturals, Sequences, FiniteSets
CONSTANTS MContexts, MFolds, MOvers, MClassifiers, MOps, MDamages
VARIABLES file, part, todo, reset, cleaning, phase, base, made, served, ops, damages
MKey(r) == r
(* the names of the files leave the context out *)
MKeyNoContext(r) == [r EXCEPT !.x = "none"]
CONSTANT KeyOf(_)
INSTANCE Cache WITH Contexts <- MContexts, Folds <- MFolds, Overs <- MOvers, Classifiers <- MClassifiers, Key <- KeyOf, MaxOps <- MOps, MaxDamages <- MDamages
=============================================================================
