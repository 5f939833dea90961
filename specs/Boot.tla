--------------------------------- MODULE Boot ---------------------------------
(* Bootstrapping: psf runs on every observation, removal of those that         *)
(* failed, then the object run; for metacalibration once per image type, each  *)
(* on that type's images.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Configs
(* cfg.shape: sequence (bands) of numbers of epochs; cfg.kind obs|list|mb;     *)
(* cfg.ignore, cfg.psfrun: BOOLEAN; cfg.ntypes: number of image types (1 when  *)
(* not metacal)                                                                *)

VARIABLES cfg, round, phase, unit, flags, calls, outcome
vars == <<cfg, round, phase, unit, flags, calls, outcome>>

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE FlatU(_, _)
FlatU(s, b) == IF b > Len(s) THEN <<>>
               ELSE [e \in 1..s[b] |-> <<b, e>>] \o FlatU(s, b + 1)
Units == FlatU(cfg.shape, 1)
AfterPsf == IF cfg.psfrun /\ cfg.ignore THEN "remove" ELSE "object"
PhaseAt(u) == IF u > Len(Units) THEN AfterPsf ELSE "psf"

Init == /\ cfg \in Configs
        /\ round = 1
        /\ unit = 1
        /\ phase = IF ~cfg.psfrun THEN "object" ELSE PhaseAt(1)
        /\ flags = <<>>
        /\ calls = <<>>
        /\ outcome = "running"

(* the psf of the next unit is fitted, with some outcome *)
PsfFit(f) ==
  /\ phase = "psf"
  /\ flags' = Append(flags, f)
  /\ calls' = Append(calls, [e |-> "psf", r |-> round, u |-> Units[unit], f |-> f,
                             kept |-> <<>>])
  /\ unit' = unit + 1
  /\ phase' = PhaseAt(unit + 1)
  /\ UNCHANGED <<cfg, round, outcome>>

Idx(b, e) == CHOOSE i \in 1..Len(Units) : Units[i] = <<b, e>>
RECURSIVE KeptEpochs(_, _)
KeptEpochs(b, e) ==
  IF e > cfg.shape[b] THEN <<>>
  ELSE (IF flags[Idx(b, e)] = 0 THEN <<e>> ELSE <<>>) \o KeptEpochs(b, e + 1)
Kept == [b \in 1..Len(cfg.shape) |-> KeptEpochs(b, 1)]
All == [b \in 1..Len(cfg.shape) |-> [e \in 1..cfg.shape[b] |-> e]]

Remove ==
  /\ phase = "remove"
  /\ IF \E b \in 1..Len(Kept) : Kept[b] = <<>>
     THEN phase' = "end" /\ outcome' = "psf failure"
     ELSE phase' = "object" /\ UNCHANGED outcome
  /\ UNCHANGED <<cfg, round, unit, flags, calls>>

Object(f) ==
  /\ phase = "object"
  /\ calls' = Append(calls, [e |-> "object", r |-> round, u |-> <<0, 0>>, f |-> f,
               kept |-> IF cfg.psfrun /\ cfg.ignore THEN Kept ELSE All])
  /\ IF round = cfg.ntypes
     THEN phase' = "end" /\ outcome' = "done" /\ UNCHANGED <<round, unit, flags>>
     ELSE /\ round' = round + 1 /\ unit' = 1 /\ flags' = <<>>
          /\ phase' = IF ~cfg.psfrun THEN "object" ELSE PhaseAt(1)
          /\ UNCHANGED outcome
  /\ UNCHANGED cfg

Next == (\E f \in {0, 4} : PsfFit(f)) \/ Remove \/ (\E f \in cfg.oflags : Object(f))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Objects == SelectSeq(calls, LAMBDA c : c.e = "object")
(* every psf fit of a round precedes its object fit *)
PsfFirst == \A i, j \in 1..Len(calls) :
   calls[i].e = "object" /\ calls[j].e = "psf" /\ calls[j].r = calls[i].r => j < i
(* the object run sees exactly the successes, in order *)
ExactlyTheGood ==
  cfg.psfrun /\ cfg.ignore =>
  \A i \in 1..Len(Objects) : \A b \in 1..Len(cfg.shape) : \A e \in 1..cfg.shape[b] :
     LET o == Objects[i]
         fl == {c \in Range(calls) : c.e = "psf" /\ c.r = o.r /\ c.u = <<b, e>>}
     IN (e \in Range(o.kept[b])) = (\A c \in fl : c.f = 0)
InOrder == \A i \in 1..Len(Objects) : \A b \in 1..Len(Objects[i].kept) :
   \A k \in 1..Len(Objects[i].kept[b]) - 1 : Objects[i].kept[b][k] < Objects[i].kept[b][k + 1]
FailsOnlyWhenEmpty ==
  outcome = "psf failure" => cfg.ignore /\ \E b \in 1..Len(cfg.shape) :
      \A c \in Range(calls) : c.e = "psf" /\ c.r = round /\ c.u[1] = b => c.f # 0
OneResultPerType == outcome = "done" => Len(Objects) = cfg.ntypes
Terminates == <>(phase = "end")

EmitEnd == phase = "end" =>
   PrintT(ToJson([cfg |-> cfg, calls |-> calls, outcome |-> outcome]))
===============================================================================
