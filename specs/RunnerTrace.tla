----------------------------- MODULE RunnerTrace -----------------------------
(* Is each recorded run a behaviour of Runner?  Traces is a sequence of        *)
(* recorded runs [cfg, log, results, meta, mix, phase].                        *)
EXTENDS Runner

CONSTANT Traces
VARIABLES tr, i

TInit == /\ tr \in 1..Len(Traces) /\ i = 0
         /\ cfg = Traces[tr].cfg
         /\ unit = 1 /\ tries = 0 /\ phase = Start(cfg)
         /\ log = <<>> /\ results = <<>>
         /\ meta = [t \in {"all", "a", "b", "c", "d", "e", "f"} |-> 0]
         /\ mix = meta /\ nfit = 0 /\ nguess = 0

TStep == /\ i < Len(Traces[tr].log)
         /\ LET ev == Traces[tr].log[i + 1]
            IN /\ \/ ev.e = "guess" /\ Guess
                  \/ ev.e = "fit" /\ Fit(ev.flags, ev.mix)
                  \/ ev.e = "raise" /\ Raise
               /\ log'[Len(log')] = ev
         /\ i' = i + 1 /\ UNCHANGED tr

(* the whole log was consumed and the reported outcome is the specified one *)
Accepted == /\ i = Len(Traces[tr].log)
            /\ phase = Traces[tr].phase
            /\ results = Traces[tr].results
            /\ meta = Traces[tr].meta
            /\ mix = Traces[tr].mix
(* a run that ended by an error of the fitter returned nothing *)
AcceptedRaised == /\ i = Len(Traces[tr].log)
                  /\ phase = "raised" /\ Traces[tr].phase = "raised"
                  /\ meta = Traces[tr].meta /\ mix = Traces[tr].mix
EmitAcceptedRaised == AcceptedRaised => PrintT(ToJson([accepted |-> tr]))
EmitAccepted == Accepted => PrintT(ToJson([accepted |-> tr]))
==============================================================================
