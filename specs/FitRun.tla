------------------------------- MODULE FitRun --------------------------------
(* Using a fit: made for a guess, evaluated at one point after another, given *)
(* a result, asked for the model.  What an evaluation answers depends on the  *)
(* point alone; a point that cannot be evaluated leaves no trace; the model   *)
(* asked for is that of the result, whatever was evaluated since.             *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Good, Bad,    \* points
          MaxOps
VARIABLES made, res, n, act
vars == <<made, res, n, act>>
Points == Good \cup Bad
A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]
Init == made = FALSE /\ res = "none" /\ n = 0 /\ act = A("none", <<>>, TRUE)
Step == n < MaxOps /\ n' = n + 1
Make(p) == Step /\ ~made /\ made' = TRUE /\ UNCHANGED res /\ act' = A("make", <<p>>, TRUE)
MakeBad(how) == Step /\ ~made /\ UNCHANGED <<made, res>> /\ act' = A("make_" \o how, <<>>, FALSE)
Residuals(p) == Step /\ made /\ UNCHANGED <<made, res>> /\ act' = A("fdiff", <<p>>, TRUE)
LogProb(p, more) == Step /\ made /\ UNCHANGED <<made, res>> /\ act' = A("lnprob", <<p, more>>, TRUE)
SetResult(p) == Step /\ made /\ UNCHANGED made /\ res' = p /\ act' = A("set", <<p, FALSE>>, TRUE)
SetFlagged(p) == Step /\ made /\ res = "none" /\ UNCHANGED made /\ res' = "flagged"
                 /\ act' = A("set", <<p, TRUE>>, TRUE)
HasPars == res \in Good
Ask(what) == Step /\ made /\ HasPars /\ UNCHANGED <<made, res>> /\ act' = A("ask_" \o what, <<res>>, TRUE)
Next == \/ \E p \in Good : Make(p) \/ SetResult(p) \/ SetFlagged(p)
        \/ \E h \in {"short", "long", "range"} : MakeBad(h)
        \/ \E p \in Points : Residuals(p) \/ \E m \in BOOLEAN : LogProb(p, m)
        \/ \E w \in {"gmix", "convolved", "image"} : Ask(w)
St == [made |-> made, res |-> res]
\* evaluating is no change
EvalUnchanged == [][act'.op \in {"fdiff", "lnprob"} => UNCHANGED <<made, res>>]_vars
RefusedUnchanged == [][~act'.ok => UNCHANGED <<made, res>>]_vars
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> [made |-> made', res |-> res']]))
==============================================================================
