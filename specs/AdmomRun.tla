------------------------------ MODULE AdmomRun -------------------------------
(* The control of adaptive moments.  Each iteration ends in one of the ways   *)
(* the step allows; the data decide which.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIters, CenOnly

VARIABLES maxiter, cenonly, ends, done, flag, clean, numiter
vars == <<maxiter, cenonly, ends, done, flag, clean, numiter>>

Exits == {"degenerate", "dark", "far", "darker", "nosize", "settled", "unweightable",
          "unnormalisable"}
FlagOf(e) == CASE e \in {"degenerate", "unweightable"} -> "LOW_DET"
               [] e \in {"dark", "darker"} -> "NONPOS_FLUX"
               [] e = "far" -> "CEN_SHIFT"
               [] e = "nosize" -> "NONPOS_SIZE"
               [] e = "unnormalisable" -> "GMIX_RANGE_ERROR"
               [] OTHER -> "none"
it == Len(ends)

Init == /\ maxiter \in MaxIters /\ cenonly \in CenOnly
        /\ ends = <<>> /\ done = FALSE /\ flag = "none" /\ clean = FALSE /\ numiter = 0
\* nothing can have settled before there are two sets of moments
Possible(e) == /\ e = "settled" => it >= 1
               /\ e = "unweightable" => ~cenonly
               /\ (e \in {"degenerate", "unnormalisable"} /\ cenonly) => it = 0
Exit(e) == /\ ~done /\ it < maxiter /\ Possible(e)
           /\ ends' = Append(ends, e) /\ done' = TRUE
           \* a weight that is no gaussian aborts: no count, no limit reached
           /\ flag' = IF it' = maxiter /\ e # "unnormalisable" THEN "MAXITER" ELSE FlagOf(e)
           /\ numiter' = IF e = "unnormalisable" THEN 0 ELSE it'
           /\ clean' = (flag' = "none")
           /\ UNCHANGED <<maxiter, cenonly>>
Continue == /\ ~done /\ it < maxiter
            /\ ends' = Append(ends, "next")
            /\ done' = (it' = maxiter)
            /\ flag' = IF done' THEN "MAXITER" ELSE "none"
            /\ numiter' = it'
            /\ UNCHANGED <<maxiter, cenonly, clean>>
Next == Continue \/ \E e \in Exits : Exit(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMost == it <= maxiter
LimitExact == done => ((flag = "MAXITER") <=> (numiter = maxiter))
CleanSettled == clean => (done /\ flag = "none" /\ ends[it] = "settled" /\ it >= 2 /\ it < maxiter)
FlaggedOrClean == done => (clean \/ flag # "none")
Ends == <>done
Emit == done' => PrintT(ToJson([maxiter |-> maxiter, cenonly |-> cenonly, ends |-> ends',
                                flag |-> flag', clean |-> clean', numiter |-> numiter']))
==============================================================================
