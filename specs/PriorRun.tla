------------------------------ MODULE PriorRun -------------------------------
(* Priors that can be changed: a shape prior's width and amplitude and the    *)
(* limits of a bounded density.  What they say and draw depends only on the   *)
(* present values and the generator, never on what was asked before.          *)
EXTENDS Rat, Integers, Sequences, TLC, Json

CONSTANTS Sigmas, Amps, Limits, BadLimits, MaxOps
VARIABLES sig, amp, lim, n, act
vars == <<sig, amp, lim, n, act>>

A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]
None == [op |-> "none", args |-> <<>>, ok |-> TRUE]
Init == sig \in Sigmas /\ amp \in Amps /\ lim \in Limits /\ n = 0 /\ act = None
Step == n < MaxOps /\ n' = n + 1
SetSigma(s) == Step /\ sig' = s /\ UNCHANGED <<amp, lim>> /\ act' = A("set_sigma", <<s>>, TRUE)
SetPars(a, s) == Step /\ amp' = a /\ sig' = s /\ UNCHANGED lim /\ act' = A("set_pars", <<a, s>>, TRUE)
SetLimits(l) == Step /\ lim' = l /\ UNCHANGED <<sig, amp>> /\ act' = A("set_limits", <<l>>, TRUE)
Refuse(l) == Step /\ UNCHANGED <<sig, amp, lim>> /\ act' = A("set_limits", <<l>>, FALSE)
Draw(w) == Step /\ UNCHANGED <<sig, amp, lim>> /\ act' = A("draw", <<w>>, TRUE)
(* fitting replaces the parameters by those of the fitted density; looking for *)
(* the maximum changes nothing                                                 *)
Fit(a, s) == Step /\ amp' = a /\ sig' = s /\ UNCHANGED lim /\ act' = A("fit", <<a, s>>, TRUE)
FindMax == Step /\ UNCHANGED <<sig, amp, lim>> /\ act' = A("find_max", <<>>, TRUE)
Next == \/ FindMax
        \/ \E a \in Amps, s \in Sigmas : Fit(a, s)
        \/ \E s \in Sigmas : SetSigma(s)
        \/ \E a \in Amps, s \in Sigmas : SetPars(a, s)
        \/ \E l \in Limits : SetLimits(l)
        \/ \E l \in BadLimits : Refuse(l)
        \/ \E w \in {"sample1d", "sample2d", "brute", "one", "bounded", "bounded_one"} : Draw(w)
St == [sig |-> sig, amp |-> amp, lim |-> lim]
Proper == RLt(lim[1], lim[2]) /\ RLt(RZero, sig)
RefusedUnchanged == [][~act'.ok => UNCHANGED <<sig, amp, lim>>]_vars
DrawUnchanged == [][act'.op \in {"draw", "find_max"} => UNCHANGED <<sig, amp, lim>>]_vars
Emit == PrintT(ToJson([f |-> St, a |-> act',
                       t |-> [sig |-> sig', amp |-> amp', lim |-> lim']]))
==============================================================================
