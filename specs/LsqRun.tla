------------------------------- MODULE LsqRun --------------------------------
(* A least-squares run sees the caller's function only by evaluating it.  An  *)
(* evaluation may fail; what the search found, or the failure, becomes the    *)
(* record of the outcome.                                                     *)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS MaxEvals, Faults

VARIABLES fault, at, n, phase, found, rec
vars == <<fault, at, n, phase, found, rec>>
Raises == {"zerodivision", "nans", "infs", "othervalue", "other"}
None == [ier |-> 0, cov |-> "", dof |-> 0]
Founds == [ier : 1..8, cov : {"none", "good", "negative", "notfinite"}, dof : {-1, 0, 1}]
NoRec == [flags |-> {}, pars |-> "", cov |-> "", err |-> "", raised |-> ""]

Init == /\ fault \in Faults /\ at \in 0..MaxEvals
        /\ (at = 0) <=> (fault = "")
        /\ n = 0 /\ phase = "search" /\ found = None /\ rec = NoRec

Evaluate == /\ phase = "search" /\ n < MaxEvals /\ ~(n + 1 = at)
            /\ n' = n + 1 /\ UNCHANGED <<fault, at, phase, found, rec>>
\* nothing is evaluated after a failure
Fail == /\ phase = "search" /\ n + 1 = at
        /\ n' = n + 1 /\ phase' = "done"
        /\ rec' = IF fault \in {"othervalue", "other"} THEN [NoRec EXCEPT !.raised = fault]
                  ELSE [flags |-> IF fault = "zerodivision" THEN {"DIV_ZERO"} ELSE {"LM_FUNC_NOTFINITE"},
                        pars |-> "default", cov |-> "default", err |-> "default", raised |-> ""]
        /\ UNCHANGED <<fault, at, found>>
Finish == /\ phase = "search" /\ n >= 1 /\ fault = "" /\ n = MaxEvals
          /\ found' \in Founds /\ phase' = "judge" /\ UNCHANGED <<fault, at, n, rec>>
Judgement(f) ==
  IF f.ier > 4 THEN [flags |-> {CASE f.ier = 5 -> "IER5" [] f.ier = 6 -> "IER6"
                                  [] f.ier = 7 -> "IER7" [] OTHER -> "IER8"},
                     pars |-> "default", cov |-> "default", err |-> "default", raised |-> ""]
  ELSE IF f.cov = "none"
    THEN [flags |-> {"LM_SINGULAR_MATRIX"}, pars |-> "found", cov |-> "default", err |-> "default", raised |-> ""]
  ELSE IF f.dof = 0
    THEN [flags |-> {"ZERO_DOF"}, pars |-> "found", cov |-> "default", err |-> "default", raised |-> ""]
  ELSE IF f.cov = "notfinite"
    THEN [flags |-> {"EIG_NOTFINITE"}, pars |-> "found", cov |-> "scaled", err |-> "default", raised |-> ""]
  \* fewer data than parameters turns a good covariance negative
  ELSE IF (f.cov = "negative") # (f.dof < 0)
    THEN [flags |-> {"LM_NEG_COV"}, pars |-> "found", cov |-> "scaled", err |-> "default", raised |-> ""]
  ELSE [flags |-> {}, pars |-> "found", cov |-> "scaled", err |-> "root", raised |-> ""]
Judge == /\ phase = "judge" /\ phase' = "done" /\ rec' = Judgement(found)
         /\ UNCHANGED <<fault, at, n, found>>
Next == Evaluate \/ Fail \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == phase = "done"
\* errors are given exactly when nothing is flagged
ErrorsIffClean == (Over /\ rec.raised = "") => ((rec.err = "root") <=> (rec.flags = {}))
CleanIsFound == (Over /\ rec.err = "root") => (rec.pars = "found" /\ rec.cov = "scaled")
FaultStops == (Over /\ fault # "") => n = at
Ends == <>Over
Emit == phase' = "done" => PrintT(ToJson([fault |-> fault, at |-> at, n |-> n', found |-> found, rec |-> rec']))
==============================================================================
