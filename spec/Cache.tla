-------------------------------- MODULE Cache --------------------------------
(* The evaluation cache: sampling results keyed by (context, fold,           *)
(* oversampler) and evaluation results keyed by (context, fold, oversampler, *)
(* classifier), stored one file per result.  The context stands for all that *)
(* determines a fold and its scaling: dataset content, validator, scaler.    *)
(* Every write goes to a temporary file first, the result appears under its  *)
(* final name by renaming.  Operations (whole evaluations, single jobs with  *)
(* an optional reset, clean-ups) are sequences of steps, a crash may happen  *)
(* between any two of them; the environment may damage or remove any file    *)
(* between operations.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Contexts, Folds, Overs, Classifiers,
          Key(_),       \* name of the file of a result
          MaxOps, MaxDamages
VARIABLES file,     \* name -> Absent, Bad or the result it holds
          part,     \* names having a (partial) temporary file
          todo,     \* results the running operation still has to provide
          reset,    \* kinds the running operation recomputes
          cleaning, \* clean-up the running operation ends with
          phase,    \* "idle", "next", "write", "rename"
          base,     \* the good results at the beginning of the operation
          made,     \* results computed by the operation
          served,   \* pairs (requested result, content served)
          ops, damages
vars == <<file, part, todo, reset, cleaning, phase, base, made, served, ops, damages>>

Samp(x, f, o) == [kind |-> "s", x |-> x, f |-> f, o |-> o, c |-> "none"]
Eval(x, f, o, c) == [kind |-> "e", x |-> x, f |-> f, o |-> o, c |-> c]
Mark(k) == [kind |-> k, x |-> "none", f |-> "none", o |-> "none", c |-> "none"]
Absent == Mark("absent")
Bad == Mark("bad")
Samplings == {Samp(x, f, o) : x \in Contexts, f \in Folds, o \in Overs}
Evaluations == {Eval(x, f, o, c) : x \in Contexts, f \in Folds, o \in Overs, c \in Classifiers}
Results == Samplings \cup Evaluations
Names == {Key(r) : r \in Results}
Good(r) == file[Key(r)] \notin {Absent, Bad}

Init == /\ file = [n \in Names |-> Absent] /\ part = {} /\ todo = {} /\ reset = {} /\ cleaning = "no" /\ phase = "idle"
        /\ base = {} /\ made = {} /\ served = {} /\ ops = 0 /\ damages = 0

Start(wanted, rs, clean) ==
    /\ phase = "idle" /\ ops < MaxOps
    /\ todo' = wanted /\ reset' = rs /\ cleaning' = clean /\ phase' = "next" /\ ops' = ops + 1
    /\ base' = {r \in Results : Good(r)} /\ made' = {} /\ served' = {}
    /\ UNCHANGED <<file, part, damages>>

(* a whole evaluation of a set of oversamplers and classifiers *)
Evaluate == \E x \in Contexts, os \in SUBSET Overs \ {{}}, clean \in {"no", "oversamplings"} :
    Start({Samp(x, f, o) : f \in Folds, o \in os} \cup {Eval(x, f, o, c) : f \in Folds, o \in os, c \in Classifiers}, {}, clean)
(* a single sampling job, with the evaluation of its result *)
Job == \E x \in Contexts, f \in Folds, o \in Overs, rs \in SUBSET {"s", "e"} :
    Start({Samp(x, f, o)} \cup {Eval(x, f, o, c) : c \in Classifiers}, rs, "no")

(* a result is provided after the results it is computed from *)
Ready(r) == r.kind = "e" => Samp(r.x, r.f, r.o) \notin todo
Reuse(r) ==
    /\ phase = "next" /\ r \in todo /\ Ready(r) /\ Good(r) /\ r.kind \notin reset
    /\ served' = served \cup {<<r, file[Key(r)]>>} /\ todo' = todo \ {r}
    /\ UNCHANGED <<file, part, reset, cleaning, phase, base, made, ops, damages>>
Compute(r) ==
    /\ phase = "next" /\ r \in todo /\ Ready(r) /\ (~Good(r) \/ r.kind \in reset)
    /\ made' = made \cup {r} /\ part' = part \cup {Key(r)} /\ phase' = "rename" /\ todo' = {r} \cup todo
    /\ UNCHANGED <<file, reset, cleaning, base, served, ops, damages>>
Rename(r) ==
    /\ phase = "rename" /\ r \in made /\ r \in todo
    /\ file' = [file EXCEPT ![Key(r)] = r] /\ part' = part \ {Key(r)} /\ phase' = "next"
    /\ served' = served \cup {<<r, r>>} /\ todo' = todo \ {r}
    /\ UNCHANGED <<reset, cleaning, base, made, ops, damages>>
End ==
    /\ phase = "next" /\ todo = {} /\ cleaning = "no" /\ phase' = "idle"
    /\ UNCHANGED <<file, part, todo, reset, cleaning, base, made, served, ops, damages>>
CleanOne ==
    /\ phase = "next" /\ todo = {} /\ cleaning = "oversamplings"
    /\ IF \E s \in Samplings : file[Key(s)] # Absent
       THEN \E s \in Samplings : /\ file[Key(s)] # Absent /\ file' = [file EXCEPT ![Key(s)] = Absent] /\ cleaning' = cleaning
       ELSE file' = file /\ cleaning' = "no"
    /\ UNCHANGED <<part, todo, reset, phase, base, made, served, ops, damages>>
Crash ==
    /\ phase # "idle" /\ phase' = "idle" /\ todo' = {} /\ cleaning' = "no" /\ served' = {} /\ made' = {} /\ base' = {} /\ reset' = {}
    /\ UNCHANGED <<file, part, ops, damages>>
Damage(n, how) ==
    /\ phase = "idle" /\ damages < MaxDamages /\ file[n] # Absent
    /\ file' = [file EXCEPT ![n] = how] /\ damages' = damages + 1 /\ part' = part
    /\ UNCHANGED <<todo, reset, cleaning, phase, base, made, served, ops>>
Next == Evaluate \/ Job \/ (\E r \in todo : Reuse(r) \/ Compute(r) \/ Rename(r)) \/ End \/ CleanOne \/ Crash
        \/ \E n \in Names, how \in {Bad, Absent} : Damage(n, how)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
ServedRight == \A p \in served : p[2] = p[1]
ServedOnce == \A p, q \in served : p[1] = q[1] => p = q
(* reused exactly when it was there at the beginning and no reset was requested *)
ReusedUnlessReset == phase = "next" /\ todo = {} => \A p \in served : p[1] \in made <=> (p[1] \notin base \/ p[1].kind \in reset)
CompleteOrDetectable == \A n \in Names : file[n] \in {Absent, Bad} \cup Results
(* a good file holds what its name promises *)
NamesDetermineContents == \A r \in Results : Good(r) => file[Key(r)] = r
=============================================================================
