------------------------------- MODULE Runner -------------------------------
(* The retry protocol.  A run visits its units in order; for each it          *)
(* alternates guess and fit until a fit succeeds or the budget is spent, and   *)
(* reports the last fit made.  A psf run (mode "psf") has one unit per epoch   *)
(* of every band, whose target is the psf if there is one, and may store the   *)
(* outcome on the target; an object run (mode "fit") has a single unit, the    *)
(* whole input.                                                                *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Configs,   \* set of run configurations, see Ok(cfg)
          Flags,     \* flags a fit may report
          Mixes,     \* whether a fit result carries a mixture: subset of BOOLEAN
          MayRaise   \* whether a fit may raise

(* cfg.kind "obs" | "list" | "mb"; cfg.target: the sequence (bands) of         *)
(* sequences (epochs) of target names; cfg.ntry >= 1; cfg.guesser, cfg.store:  *)
(* BOOLEAN; cfg.mode "fit" | "psf"                                             *)

VARIABLES cfg, unit, tries, phase, log, results, meta, mix, nfit, nguess
vars == <<cfg, unit, tries, phase, log, results, meta, mix, nfit, nguess>>

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Units(c) == IF c.mode = "fit" THEN <<"all">> ELSE Flat(c.target)
NUnits == Len(Units(cfg))
Target == Units(cfg)[unit]

Start(c) == IF Len(Units(c)) = 0 THEN "done"
            ELSE IF c.guesser THEN "guess" ELSE "fit"

Init ==
  /\ cfg \in Configs
  /\ unit = 1 /\ tries = 0 /\ phase = Start(cfg)
  /\ log = <<>> /\ results = <<>>
  /\ meta = [t \in {"all", "a", "b", "c", "d", "e", "f"} |-> 0]
  /\ mix = meta /\ nfit = 0 /\ nguess = 0

Guess ==
  /\ phase = "guess"
  /\ nguess' = nguess + 1
  /\ log' = Append(log, [e |-> "guess", t |-> Target, g |-> nguess + 1,
                         flags |-> 0, mix |-> FALSE])
  /\ phase' = "fit"
  /\ UNCHANGED <<cfg, unit, tries, results, meta, mix, nfit>>

(* the unit is finished with result r *)
Finish(r, f, m) ==
  /\ results' = Append(results, r)
  /\ IF cfg.mode = "psf" /\ cfg.store
     THEN /\ meta' = [meta EXCEPT ![Target] = r]
          /\ mix' = IF f = 0 /\ m THEN [mix EXCEPT ![Target] = r] ELSE mix
     ELSE UNCHANGED <<meta, mix>>
  /\ tries' = 0
  /\ IF unit = NUnits THEN phase' = "done" /\ UNCHANGED unit
                      ELSE /\ unit' = unit + 1
                           /\ phase' = IF cfg.guesser THEN "guess" ELSE "fit"

Fit(f, m) ==
  /\ phase = "fit"
  /\ nfit' = nfit + 1
  /\ log' = Append(log, [e |-> "fit", t |-> Target,
                         g |-> IF cfg.guesser THEN nguess ELSE 0,
                         flags |-> f, mix |-> m])
  /\ IF f = 0 \/ tries + 1 = cfg.ntry
     THEN Finish(nfit + 1, f, m)
     ELSE /\ tries' = tries + 1
          /\ phase' = IF cfg.guesser THEN "guess" ELSE "fit"
          /\ UNCHANGED <<unit, results, meta, mix>>
  /\ UNCHANGED <<cfg, nguess>>

(* an error of the fitter ends the whole run at once *)
Raise ==
  /\ MayRaise /\ phase = "fit"
  /\ nfit' = nfit + 1
  /\ log' = Append(log, [e |-> "raise", t |-> Target,
                         g |-> IF cfg.guesser THEN nguess ELSE 0,
                         flags |-> 0, mix |-> FALSE])
  /\ phase' = "raised"
  /\ UNCHANGED <<cfg, unit, tries, results, meta, mix, nguess>>

Next == Guess \/ (\E f \in Flags, m \in Mixes : Fit(f, m)) \/ Raise

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == phase \in {"done", "raised"}
Fits(t) == SelectSeq(log, LAMBDA x : x.e # "guess" /\ x.t = t)
OnlyFits == SelectSeq(log, LAMBDA x : x.e # "guess")

Alternation ==
  \A i \in 1..Len(log) :
    IF cfg.guesser
    THEN (i % 2 = 1) = (log[i].e = "guess")
         /\ (log[i].e # "guess" => log[i].g = log[i - 1].g /\ log[i].t = log[i - 1].t)
    ELSE log[i].e # "guess" /\ log[i].g = 0
BudgetKept == tries < cfg.ntry /\ nfit <= cfg.ntry * NUnits
(* nothing is tried on a unit again after a success *)
StopAtSuccess ==
  \A i \in 1..Len(OnlyFits) - 1 :
    OnlyFits[i].flags = 0 /\ OnlyFits[i].e = "fit" => i \in {results[k] : k \in 1..Len(results)}
LastReported ==
  phase = "done" /\ NUnits > 0 => /\ Len(results) = NUnits
                   /\ results[Len(results)] = nfit
                   /\ \A k \in 1..Len(results) :
                        OnlyFits[results[k]].t = Units(cfg)[k]
MixOnlyOnSuccess ==
  \A t \in DOMAIN mix : mix[t] # 0 => OnlyFits[mix[t]].flags = 0 /\ OnlyFits[mix[t]].mix
StoredWhenAsked ==
  phase = "done" => \A t \in DOMAIN meta :
     meta[t] # 0 => cfg.store /\ OnlyFits[meta[t]].t = t
Terminates == <>Ended

Proj == [cfg |-> cfg, log |-> log, results |-> results, meta |-> meta,
         mix |-> mix, phase |-> phase]
(* printed for every finished behaviour *)
EmitEnd == Ended => PrintT(ToJson(Proj))
=============================================================================
