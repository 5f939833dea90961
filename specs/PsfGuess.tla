------------------------------ MODULE PsfGuess -------------------------------
(* Guesses for fits of a psf: size and flux from the pixels, and the range of *)
(* every entry of the guess.                                                  *)
EXTENDS Rat, Integers, Sequences, TLC, Json

CONSTANTS Kinds, NGs, Scales, Fwhms, Fluxes, Moms
VARIABLES inp, out
vars == <<inp, out>>
Cases == [kind : Kinds, ng : NGs, scale : Scales, fwhm : Fwhms, flux : Fluxes, moms : Moms]
Ok(i) == i.kind = "SimplePSF" => i.ng = 1

\* T of a gaussian of that full width at half maximum: 2 sigma^2
TOf(fwhm) == TDiv(RMul(RI(2), RSq(fwhm)), TMul(RI(8), TLog(RI(2))))
\* from the sum of the pixels a fixed width of 7/2 pixels; from moments that of the object
SizeOf(i) == IF i.moms THEN TOf(RMul(i.fwhm, i.scale)) ELSE TOf(RMul(Q(7, 2), i.scale))
E(lo, hi) == [lo |-> lo, hi |-> hi]
Rel(x, lo, hi) == E(TMul(x, lo), TMul(x, hi))
Sym(w) == E(RNeg(w), w)
Tenth == <<Q(9, 10), Q(11, 10)>>
Vector(i) ==
  LET T == SizeOf(i)
  IN <<Sym(Q(1, 100)), Sym(Q(1, 100)), Sym(Q(1, 20)), Sym(Q(1, 20))>>
     \o (IF i.ng = 1 THEN <<Rel(T, Tenth[1], Tenth[2]), Rel(i.flux, Tenth[1], Tenth[2])>>
         ELSE [k \in 1..i.ng |-> Rel(T, Q(1, 5), RI(8))]
              \o [k \in 1..i.ng |-> Rel(i.flux, Q(1, 50), Q(3, 5))])
Half == <<Q(1, 2), Q(2, 3)>>
\* one gaussian: everything within a tenth; several: shares of the flux
Mixture(i) ==
  LET s2 == TDiv(SizeOf(i), RI(2))
  IN [k \in 1..i.ng |->
       [p |-> IF i.ng = 1 THEN Rel(i.flux, Tenth[1], Tenth[2]) ELSE Rel(i.flux, RZero, Q(3, 4)),
        row |-> Sym(Q(1, 10)), col |-> Sym(Q(1, 10)),
        var |-> IF i.ng = 1 THEN Rel(s2, Tenth[1], Tenth[2]) ELSE Rel(s2, Q(2, 5), RI(25)),
        irc |-> IF i.ng = 1 THEN Rel(s2, Q(-1, 5), Q(1, 5)) ELSE Rel(s2, Q(-1, 4), Q(1, 4))]]
\* several gaussians share the flux
Total(i) == Rel(i.flux, Q(17, 20), Q(5, 4))
Answer(i) == [vec |-> IF i.kind = "GMixPSF" THEN <<>> ELSE Vector(i),
              mix |-> IF i.kind = "GMixPSF" THEN Mixture(i) ELSE <<>>, total |-> Total(i),
              T |-> TOf(RMul(i.fwhm, i.scale))]
Init == inp \in {i \in Cases : Ok(i)} /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp /\ out' = <<Answer(inp)>>
Layout == out # <<>> => IF inp.kind = "GMixPSF" THEN Len(out[1].mix) = inp.ng
                        ELSE Len(out[1].vec) = 4 + 2 * inp.ng
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
