------------------------------- MODULE EMRun --------------------------------
(* The iteration of expectation maximisation as a machine: it makes at least  *)
(* miniter and at most maxiter steps, may stop after a step whose change was  *)
(* small, and says so.  Small is the sequence of "the change was small".      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxIters, MinIters, FailAt

VARIABLES maxiter, miniter, small, fail, it, done, flags, mixture
vars == <<maxiter, miniter, small, fail, it, done, flags, mixture>>

MaxOf(S) == CHOOSE x \in S: \A y \in S: y <= x
Seqs == UNION {[1..n -> BOOLEAN] : n \in MaxIters}

Init == /\ maxiter \in MaxIters /\ miniter \in MinIters
        /\ small \in {s \in Seqs : Len(s) = maxiter}
        /\ fail \in FailAt     \* the step that cannot be made, 0 for none
        /\ fail <= maxiter
        /\ it = 0 /\ done = FALSE /\ flags = "none" /\ mixture = TRUE

Fail == /\ ~done /\ it < maxiter /\ fail = it + 1
        /\ done' = TRUE /\ flags' = "EM_RANGE_ERROR" /\ mixture' = FALSE
        /\ UNCHANGED <<maxiter, miniter, small, fail, it>>
Step == /\ ~done /\ it < maxiter /\ fail # it + 1
        /\ it' = it + 1
        /\ done' = ((it' >= miniter /\ small[it']) \/ it' = maxiter)
        /\ flags' = (IF ~done' THEN "none" ELSE IF it' >= maxiter THEN "EM_MAXITER" ELSE "")
        /\ UNCHANGED <<maxiter, miniter, small, fail, mixture>>
None == /\ ~done /\ maxiter = 0
        /\ done' = TRUE /\ flags' = "EM_MAXITER"
        /\ UNCHANGED <<maxiter, miniter, small, fail, it, mixture>>
Next == Fail \/ Step \/ None
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMost == it <= maxiter
FlagExact == (done /\ mixture) => ((flags = "EM_MAXITER") <=> (it = maxiter))
ErrorHasNoMixture == (flags = "EM_RANGE_ERROR") <=> ~mixture
StopsSmall == (done /\ flags = "") => (small[it] /\ it >= miniter)
Ends == <>done
Emit == done' => PrintT(ToJson([maxiter |-> maxiter, miniter |-> miniter, small |-> small,
                                fail |-> fail, it |-> it', flags |-> flags', mixture |-> mixture']))
==============================================================================
