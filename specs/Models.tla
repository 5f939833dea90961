------------------------------- MODULE Models -------------------------------
(* The named profiles, explored one parameter vector at a time.               *)
EXTENDS ProfileLib, FiniteSets, TLC, Json

CONSTANTS Profiles,        \* profiles explored
          Base,            \* set of <<row, col, T, flux>>
          Gs,              \* shapes <<g1, g2>>
          FracDevs, Ratios, \* bulge fractions, log10 of size ratios
          Coell            \* set of <<sizes, fluxes>>

VARIABLES inp, out
vars == <<inp, out>>

(* ---- cases ---- *)
C(m, g, b, fd, lr, co) == [model |-> m, g |-> g, base |-> b, fracdev |-> fd,
                           lrat |-> lr, coell |-> co]
None == <<0, 1>>
NoCo == <<<<>>, <<>>>>
Inputs ==
  UNION { CASE m \in Simple -> {C(m, g, b, None, None, NoCo) : g \in Gs, b \in Base}
            [] m = "bdf" -> {C(m, g, b, f, None, NoCo) : g \in Gs, b \in Base, f \in FracDevs}
            [] m \in {"bd", "cm"} -> {C(m, g, b, f, r, NoCo) : g \in Gs, b \in Base,
                                       f \in FracDevs, r \in Ratios}
            [] m = "coellip" -> {C(m, g, b, None, None, c) : g \in Gs, b \in Base, c \in Coell}
          : m \in Profiles }

Answer(i) ==
  [number |-> Number[i.model], pars |-> Vector(i), ok |-> InDisk(i.g)] @@
  IF ~InDisk(i.g) THEN [refs |-> <<>>]
  ELSE [refs |-> IF i.model \in {"bd", "bdf", "cm"} THEN <<MixMean(i)>> ELSE <<>>,
        cen |-> <<i.base[1], i.base[2]>>, e |-> <<E(i.g, 1), E(i.g, 2)>>,
        parts |-> Parts(i), flux |-> Flux(i), T |-> TotalT(i)]

Init == inp \in Inputs /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp

(* ---- properties of the definition ---- *)
Done == out # <<>>
Lengths == Done => Len(out[1].pars) = IF inp.model = "coellip" THEN 4 + 2 * Len(inp.coell[1])
                                      ELSE NPar[inp.model]
Counts == (Done /\ out[1].ok) => Len(out[1].parts) =
              IF inp.model = "coellip" THEN Len(inp.coell[1]) ELSE NGauss[inp.model]
NumbersDiffer == \A a, b \in DOMAIN Number: Number[a] = Number[b] => a = b
\* ellipticities stay in the disk
EInDisk == (Done /\ out[1].ok) =>
   RLt(RAdd(RSq(out[1].e[1]), RSq(out[1].e[2])), ROne)
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
