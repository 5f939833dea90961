---------------------------- MODULE TemplateFlux -----------------------------
(* The flux of a template: the weighted least-squares amplitude over every     *)
(* pixel of positive weight of every epoch, its error and when there is none.  *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Stacks,    \* set of sequences of epochs [t, d, w, ignore]: template, data,
                     \*   weight, whether pixels without weight are listed at all
          Options,   \* set of [psf, normalize, from]: whose template, normalised or
                     \*   not, given as an image or as a mixture
          Poisons    \* what one pixel holds instead of its data

VARIABLES inp, out
vars == <<inp, out>>

Cases == [stack : Stacks, opt : Options, poison : Poisons]

Pix(e) == 1..Len(e.t)
Pos(e) == SelectSeq([k \in Pix(e) |-> k], LAMBDA k : e.w[k] > 0)
Mask(e) == SelectSeq([k \in Pix(e) |-> k], LAMBDA k : e.w[k] <= 0)
RECURSIVE ISum(_, _)
ISum(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + ISum(s, k + 1)
Sum(e) == ISum(e.t, 1)
\* templates of the object itself are always normalised
Normalised(i) == ~i.opt.psf \/ i.opt.normalize
Norm(i, e) == IF Normalised(i) THEN RI(Sum(e)) ELSE ROne
Over(i, f(_, _)) == RSum([k \in 1..Len(i.stack) |->
    RSum([x \in 1..Len(Pos(i.stack[k])) |-> f(i.stack[k], Pos(i.stack[k])[x])])])
TT(i, e, k) == RDiv(RI(e.t[k]), Norm(i, e))
X(i) == Over(i, LAMBDA e, k : RMul(TT(i, e, k), RI(e.d[k] * e.w[k])))
M(i) == Over(i, LAMBDA e, k : RMul(RSq(TT(i, e, k)), RI(e.w[k])))
D(i) == Over(i, LAMBDA e, k : RI(e.d[k] * e.d[k] * e.w[k]))
Count(i, f(_)) == ISum([k \in 1..Len(i.stack) |-> f(i.stack[k])], 1)
NPos(i) == Count(i, LAMBDA e : Len(Pos(e)))
Listed(i) == Count(i, LAMBDA e : IF e.ignore THEN Len(Pos(e)) ELSE Len(e.t))

\* the poison is in the first pixel of its sort
HasMask(i) == \E k \in 1..Len(i.stack) : Mask(i.stack[k]) # <<>>
Where(i) == LET good == i.poison \in {"nan", "inf", "huge"}
                k == CHOOSE k \in 1..Len(i.stack) :
                       (IF good THEN Pos(i.stack[k]) ELSE Mask(i.stack[k])) # <<>>
            IN IF i.poison = "none" THEN <<>>
               ELSE <<k, IF good THEN Pos(i.stack[k])[1] ELSE Mask(i.stack[k])[1]>>
Broken(i) == i.poison \in {"nan", "inf", "huge"}
Ok(i) == /\ (i.poison \in {"nanmask", "infmask"} => HasMask(i))
         /\ (Broken(i) => NPos(i) > 0)
         \* a template which is zero but in the huge pixel fits it perfectly
         /\ (i.poison = "huge" =>
               LET x == Where(i)
                   Here(k, j) == k = x[1] /\ j = x[2]
               IN \/ i.opt.from = "image" /\ i.stack[x[1]].t[x[2]] = 0
                  \/ \E k \in 1..Len(i.stack) : \E n \in 1..Len(Pos(i.stack[k])) :
                       LET j == Pos(i.stack[k])[n]
                       IN ~Here(k, j) /\ (i.opt.from = "image" => i.stack[k].t[j] # 0))
         \* an epoch without any pixel listed is not an observation
         /\ \A k \in 1..Len(i.stack) : i.stack[k].ignore => Pos(i.stack[k]) # <<>>
         /\ \A k \in 1..Len(i.stack) : Normalised(i) => Sum(i.stack[k]) # 0

\* the same over templates which are not rational: arrays of the pixels used
V(s) == <<"var", s>>
Tot(x) == <<"total", x>>
FluxT == TDiv(Tot(TMul(TMul(V("t"), V("d")), V("w"))), Tot(TMul(TMul(V("t"), V("t")), V("w"))))
Chi2T == Tot(TMul(V("w"), TPow(TSub(V("d"), TMul(V("F"), V("t"))), RI(2))))
ErrT(i) == TSqrt(TDiv(TDiv(V("chi2"), Tot(TMul(TMul(V("t"), V("t")), V("w")))), RI(Listed(i) - 1)))

Undefined(i) == (i.opt.from = "image" /\ M(i) = RZero) \/ NPos(i) = 0
Answer(i) ==
  LET flux == RDiv(X(i), M(i))
      none == Undefined(i)
      one == Listed(i) = 1
      dof == NPos(i) - 1
  IN [where |-> Where(i), dof |-> dof, listed |-> Listed(i), normalised |-> Normalised(i),
      flags |-> (IF none \/ one THEN {"DIV_ZERO"} ELSE IF Broken(i) THEN {"BAD_VAR"} ELSE {}),
      has |-> ~none, broken |-> Broken(i),
      pos |-> [k \in 1..Len(i.stack) |-> Pos(i.stack[k])],
      terms |-> [flux |-> FluxT, chi2 |-> Chi2T,
                 err |-> IF one THEN TNaN ELSE ErrT(i)],
      exact |-> IF none \/ i.opt.from # "image" THEN <<>>
                ELSE <<[flux |-> flux, chi2 |-> RSub(D(i), RMul(flux, X(i)))]>>]
Init == inp \in {i \in Cases : Ok(i)} /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp
Done == out # <<>>
Exact == Done /\ out[1].exact # <<>>

(* ---- properties ---- *)
\* the residuals are orthogonal to the template
Normal == Exact => LET f == out[1].exact[1].flux
                   IN Over(inp, LAMBDA e, k : RMul(RMul(RI(e.w[k]), TT(inp, e, k)),
                                 RSub(RI(e.d[k]), RMul(f, TT(inp, e, k))))) = RZero
\* nothing is left when the data are a multiple of the template
Perfect == (Exact /\ \E f \in 1..3 : \A k \in 1..Len(inp.stack) : \A x \in Pix(inp.stack[k]) :
              RI(inp.stack[k].d[x]) = RMul(RI(f), TT(inp, inp.stack[k], x)))
           => out[1].exact[1].chi2 = RZero
ChiPositive == Exact => RSign(out[1].exact[1].chi2) >= 0
FlaggedWhenNone == (Done /\ ~out[1].has) => "DIV_ZERO" \in out[1].flags
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
