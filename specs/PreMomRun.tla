------------------------------- MODULE PreMomRun -------------------------------
(* Measuring moments again and again, with and without the caches: what is     *)
(* answered is a function of the request alone.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Requests,    \* set of [data, fitter, nopsf, good]
          Depth

VARIABLES fftCache, kernelCache, kept, act
vars == <<fftCache, kernelCache, kept, act>>

\* what the answer depends on
Key(r) == <<r.data, r.fitter, r.nopsf>>
Init == /\ fftCache = FALSE /\ kernelCache = FALSE /\ kept = {}
        /\ act = [op |-> "init", args |-> <<>>, ok |-> TRUE]
Toggle(c, to) == /\ IF c = "fft" THEN fftCache' = to /\ UNCHANGED kernelCache
                    ELSE kernelCache' = to /\ UNCHANGED fftCache
                 \* switching a cache off empties it
                 /\ kept' = (IF to THEN kept ELSE {k \in kept : k[1] # c})
                 /\ act' = [op |-> "toggle", args |-> <<c, to>>, ok |-> TRUE]
Measure(r) ==
  /\ kept' = kept \cup (IF fftCache /\ r.good THEN {<<"fft", Key(r)>>} ELSE {})
                  \cup (IF kernelCache /\ r.good THEN {<<"kernel", Key(r)>>} ELSE {})
  /\ act' = [op |-> "measure", args |-> <<r>>, ok |-> r.good]
  /\ UNCHANGED <<fftCache, kernelCache>>
Next == \/ \E c \in {"fft", "kernel"} : \E to \in BOOLEAN :
             /\ to # (IF c = "fft" THEN fftCache ELSE kernelCache) /\ Toggle(c, to)
        \/ \E r \in Requests : Measure(r)
Bounded == Cardinality(kept) <= Depth
\* nothing is kept while the caches are off
OffIsEmpty == /\ (~fftCache => \A k \in kept : k[1] # "fft")
              /\ (~kernelCache => \A k \in kept : k[1] # "kernel")
State == [fft |-> fftCache, kernel |-> kernelCache, kept |-> kept]
Emit == PrintT(ToJson([f |-> State, a |-> act', t |-> State']))
View == <<fftCache, kernelCache, kept>>
===============================================================================
