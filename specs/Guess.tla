-------------------------------- MODULE Guess --------------------------------
(* Starting guesses: one row per guess, one entry per parameter of the fit in *)
(* its order, each drawn in a range about what was supplied, taken from the   *)
(* prior, or a shape near a given one; and what becomes of rows that a prior  *)
(* forbids.                                                                   *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Sizes, Fluxes,   \* supplied size, sequence of fluxes per band
          Nus, ParsSets, WidthSets,
          Goods,                  \* bands whose psf flux is usable
          NRows,                  \* 0: no number was asked for
          BadSets, BadDraws       \* rows, and draws of the prior, that it forbids

VARIABLES inp, out
vars == <<inp, out>>

FromPsf == {"TPSFFlux", "TPSFFluxAndPrior", "BDFPSFFlux"}
NeedPrior == {"TFluxAndPrior", "TPSFFluxAndPrior", "BDF", "BDFPSFFlux", "BD", "Prior"}
Plain == Kinds \ {"Pars", "Prior"}

Common == [n : NRows, bad : BadSets, baddraw : BadDraws, prior : BOOLEAN]
Cases == [kind : Plain, size : Sizes, flux : Fluxes, nu : Nus, good : Goods, c : Common]
         \cup [kind : Kinds \cap {"Pars"}, pars : ParsSets, widths : WidthSets, c : Common]
         \cup [kind : Kinds \cap {"Prior"}, flux : Fluxes, c : Common]
Rows(i) == IF i.c.n = 0 THEN 1 ELSE i.c.n
Ok(i) ==
  /\ (i.kind \in NeedPrior => i.c.prior)
  /\ (~i.c.prior => i.c.bad = {} /\ i.c.baddraw = {})
  /\ (i.kind = "Prior" => i.c.bad = {} /\ i.c.baddraw = {})
  /\ i.c.bad \subseteq 1..Rows(i)
  /\ (i.kind \in Plain => i.c.n > 0)
  /\ (i.kind \in Plain => (i.kind = "R50NuFlux" \/ i.nu = CHOOSE x \in Nus : TRUE))
  /\ (i.kind \in Plain => i.good \subseteq 1..Len(i.flux))
  /\ (i.kind \in Plain \ FromPsf => i.good = 1..Len(i.flux))
  /\ (i.kind = "Pars" /\ i.widths # <<>> => Len(i.widths) = Len(i.pars))

(* ---- ranges ---- *)
Box(lo, hi) == [how |-> "box", lo |-> RMin(lo, hi), hi |-> RMax(lo, hi)]
About(x, w) == Box(RMul(x, RSub(ROne, w)), RMul(x, RAdd(ROne, w)))
Off(x, w) == Box(RSub(x, w), RAdd(x, w))
FromPrior == [how |-> "prior", lo |-> RZero, hi |-> RZero]
ShapeOf == [how |-> "shape", lo |-> RZero, hi |-> RZero]
Tenth == Q(1, 10)
Cen == Off(RZero, Q(1, 100))
Shp == Off(RZero, Q(1, 50))
NuMin == Q(-99, 100)
NuMax == Q(7, 2)
Nu(x) == RMax(NuMin, RMin(NuMax, x))
NuBox(x) == LET b == About(Nu(x), Tenth) IN Box(RMax(NuMin, b.lo), RMin(NuMax, b.hi))
Mean(i) == LET g == i.good
               s == [k \in 1..Len(i.flux) |-> IF k \in g THEN i.flux[k] ELSE RZero]
           IN RDiv(RSum(s), RI(Cardinality(g)))
\* a band without a usable flux takes the mean of the others, varied
FluxBox(i, b) ==
  IF b \in i.good THEN About(i.flux[b], Tenth)
  ELSE LET m == Mean(i)
       IN IF RSign(m) >= 0 THEN Box(RMul(m, Q(81, 100)), RMul(m, Q(121, 100)))
          ELSE Box(RMul(m, Q(121, 100)), RMul(m, Q(81, 100)))
FluxBoxes(i) == [b \in 1..Len(i.flux) |-> FluxBox(i, b)]
Head4(k) == IF k \in {"TFlux", "TPSFFlux", "R50Flux", "R50NuFlux"}
            THEN <<Cen, Cen, Shp, Shp>>
            ELSE <<FromPrior, FromPrior, FromPrior, FromPrior>>
Layout(i) ==
  CASE i.kind = "Pars" ->
         LET w(k) == IF i.widths # <<>> THEN i.widths[k]
                     ELSE IF k <= 2 THEN Q(1, 50) ELSE Tenth
         IN [k \in 1..Len(i.pars) |->
               IF k <= 2 THEN Off(i.pars[k], w(k))
               ELSE IF k <= 4 THEN ShapeOf ELSE About(i.pars[k], w(k))]
    [] i.kind = "Prior" -> [k \in 1..5 + Len(i.flux) |-> FromPrior]
    [] i.kind \in {"BDF", "BDFPSFFlux"} ->
         Head4(i.kind) \o <<About(i.size, Tenth), Box(Q(4, 10), Q(6, 10))>> \o FluxBoxes(i)
    [] i.kind = "BD" ->
         Head4(i.kind) \o <<About(i.size, Tenth), FromPrior, Box(Q(4, 10), Q(6, 10))>> \o FluxBoxes(i)
    [] i.kind = "R50NuFlux" ->
         Head4(i.kind) \o <<About(i.size, Tenth), NuBox(i.nu)>> \o FluxBoxes(i)
    [] OTHER -> Head4(i.kind) \o <<About(i.size, Tenth)>> \o FluxBoxes(i)
\* what the shape guess keeps to: the shape brought within 4/5 of the origin, and the widths
ShapeRule(i) ==
  IF i.kind # "Pars" THEN <<>>
  ELSE LET g1 == i.pars[3]
           g2 == i.pars[4]
           m2 == RAdd(RSq(g1), RSq(g2))
           big == RLt(Q(16, 25), m2)
           f == IF big THEN TDiv(Q(4, 5), TSqrt(m2)) ELSE ROne
       IN <<TMul(g1, f), TMul(g2, f), IF i.widths = <<>> THEN Tenth ELSE i.widths[3],
            IF i.widths = <<>> THEN Tenth ELSE i.widths[4]>>

(* ---- rows that the prior forbids ---- *)
\* which entries a draw of the prior replaces
Replaces(i) == IF i.kind \in {"TFluxAndPrior", "TPSFFluxAndPrior"} THEN "tail"
               ELSE IF i.kind = "Prior" THEN "none" ELSE "all"
RECURSIVE Settle(_, _)
\* the first allowed draw after the given number of them
Settle(i, drawn) == IF drawn + 1 \in i.c.baddraw THEN Settle(i, drawn + 1) ELSE drawn + 1
RECURSIVE FixRows(_, _, _, _)
FixRows(i, row, drawn, acc) ==
  IF row > Rows(i) THEN acc
  ELSE IF row \in i.c.bad
       THEN LET d == Settle(i, drawn) IN FixRows(i, row + 1, d, Append(acc, d))
       ELSE FixRows(i, row + 1, drawn, Append(acc, 0))
Final(i) == FixRows(i, 1, 0, <<>>)

\* no usable flux at all: no guess
Fails(i) == i.kind \in FromPsf /\ i.good = {}
OneDim(i) == IF i.kind \in {"Pars", "Prior"} THEN i.c.n = 0 ELSE i.c.n = 1
Answer(i) ==
  IF Fails(i) THEN [fails |-> TRUE]
  ELSE [fails |-> FALSE, layout |-> Layout(i), shape |-> ShapeRule(i), rows |-> Rows(i),
        onedim |-> OneDim(i), final |-> Final(i), replaces |-> Replaces(i)]
Init == inp \in {i \in Cases : Ok(i)} /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp /\ out' = <<Answer(inp)>>
Done == out # <<>> /\ ~out[1].fails

NPars(i) == CASE i.kind = "Pars" -> Len(i.pars)
              [] i.kind \in {"BDF", "BDFPSFFlux", "R50NuFlux"} -> 6 + Len(i.flux)
              [] i.kind = "BD" -> 7 + Len(i.flux)
              [] OTHER -> 5 + Len(i.flux)
RightLength == Done => Len(out[1].layout) = NPars(inp)
\* ranges contain what they are about
Proper == Done => \A k \in 1..Len(out[1].layout) : RLe(out[1].layout[k].lo, out[1].layout[k].hi)
AroundSize == Done /\ inp.kind \in Plain =>
  RLe(out[1].layout[5].lo, inp.size) /\ RLe(inp.size, out[1].layout[5].hi)
AroundFlux == Done /\ inp.kind \in Plain =>
  LET n == Len(inp.flux)
      l == out[1].layout
  IN \A b \in inp.good : LET e == l[Len(l) - n + b] IN RLe(e.lo, inp.flux[b]) /\ RLe(inp.flux[b], e.hi)
\* only forbidden rows are replaced, by allowed draws, a different one for each
Replaced == Done =>
  LET f == out[1].final
  IN /\ \A r \in 1..Len(f) : (f[r] # 0) <=> (r \in inp.c.bad)
     /\ \A r \in 1..Len(f) : f[r] \notin inp.c.baddraw
     /\ \A r, s \in 1..Len(f) : (r # s /\ f[r] # 0) => f[r] # f[s]
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
