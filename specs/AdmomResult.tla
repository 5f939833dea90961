----------------------------- MODULE AdmomResult -----------------------------
(* From the final sums of adaptive moments to the summary: what is flagged,   *)
(* what is undefined, what everything is.                                     *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fails,    \* how the run ended, "" for well
          Pars,     \* <<row, col, icc - irr, 2 irc, T>>
          Sums,     \* the seven sums
          VarSets,  \* variances of the seven sums
          CorSets,  \* <<cov(3,5), cov(4,5), cov(5,6), cov(7,6)>>
          Areas, Norms, Wsums
VARIABLES inp, out
vars == <<inp, out>>
Cases == [fail : Fails, pars : Pars, sums : Sums, var : VarSets, cor : CorSets,
          area : Areas, norm : Norms, wsum : Wsums]

Pos(x) == RSign(x) > 0
RatioVar(a, b, va, vb, cab) ==
  LET r == RDiv(a, b)
  IN RDiv(RSub(RAdd(va, RMul(RSq(r), vb)), RMul(RI(2), RMul(r, cab))), RSq(b))
Err(v) == TSqrt(<<"max", v, RZero>>)
Times(k, t) == TMul(RI(k), t)

Ok(i) == i.fail = ""
T(i) == i.pars[5]
FluxBad(i) == IF ~Ok(i) THEN {i.fail}
              ELSE IF ~Pos(T(i)) THEN {"NONPOS_SIZE"}
              ELSE IF ~Pos(i.var[6]) THEN {"NONPOS_VAR"} ELSE {}
RatioBad(i, k) == IF ~Ok(i) THEN {i.fail}
                  ELSE IF ~(Pos(i.var[k]) /\ Pos(i.var[6])) THEN {"NONPOS_VAR"}
                  ELSE IF ~Pos(i.sums[6]) THEN {"NONPOS_FLUX"} ELSE {}
Flags(i) == (IF Ok(i) THEN {} ELSE {i.fail})
            \cup (IF \E k \in 3..7 : ~Pos(i.var[k]) THEN {"NONPOS_VAR"}
                  ELSE IF ~Ok(i) THEN {}
                  ELSE IF ~Pos(i.sums[6]) THEN {"NONPOS_FLUX"}
                  ELSE IF ~Pos(T(i)) THEN {"NONPOS_SIZE"} ELSE {})
Fnorm(i) == RMul(i.area, RMul(i.norm, i.wsum))
HasFlux(i) == Ok(i) /\ Pos(T(i))
Clean(i) == Flags(i) = {}

Answer(i) ==
  [flags |-> Flags(i), flux_flags |-> FluxBad(i), T_flags |-> RatioBad(i, 5),
   rho4_flags |-> RatioBad(i, 7),
   flux_mean |-> IF Ok(i) THEN RDiv(i.sums[6], i.wsum) ELSE TNaN,
   flux |-> IF HasFlux(i) THEN RDiv(i.sums[6], Fnorm(i)) ELSE TNaN,
   flux_err |-> IF FluxBad(i) = {} THEN TDiv(TSqrt(i.var[6]), Fnorm(i)) ELSE TNaN,
   s2n |-> IF FluxBad(i) = {} THEN TDiv(i.sums[6], TSqrt(i.var[6])) ELSE TNaN,
   T |-> IF Ok(i) THEN T(i) ELSE TNaN,
   T_err |-> IF RatioBad(i, 5) = {}
     THEN Times(4, Err(RatioVar(i.sums[5], i.sums[6], i.var[5], i.var[6], i.cor[3]))) ELSE TNaN,
   rho4 |-> IF RatioBad(i, 7) = {} THEN RDiv(i.sums[7], i.sums[6]) ELSE IF Ok(i) THEN <<"given">> ELSE TNaN,
   rho4_err |-> IF RatioBad(i, 7) = {}
     THEN Times(4, Err(RatioVar(i.sums[7], i.sums[6], i.var[7], i.var[6], i.cor[4]))) ELSE TNaN,
   e1 |-> IF Clean(i) THEN RDiv(i.pars[3], T(i)) ELSE TNaN,
   e2 |-> IF Clean(i) THEN RDiv(i.pars[4], T(i)) ELSE TNaN,
   e1err |-> IF Clean(i)
     THEN Times(2, Err(RatioVar(i.sums[3], i.sums[5], i.var[3], i.var[5], i.cor[1]))) ELSE TNaN,
   e2err |-> IF Clean(i)
     THEN Times(2, Err(RatioVar(i.sums[4], i.sums[5], i.var[4], i.var[5], i.cor[2]))) ELSE TNaN]

Le(c, a, b) == ~Pos(a) \/ ~Pos(b) \/ RLe(RSq(c), RMul(a, b))
Possible(i) == /\ Le(i.cor[1], i.var[3], i.var[5]) /\ Le(i.cor[2], i.var[4], i.var[5])
               /\ Le(i.cor[3], i.var[5], i.var[6]) /\ Le(i.cor[4], i.var[7], i.var[6])
               /\ i.sums[5] # RZero
Init == inp \in {i \in Cases : Possible(i)} /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp

Done == out # <<>>
IsNum(x) == x # TNaN
AllOf(o) == <<o.flux, o.flux_err, o.flux_mean, o.s2n, o.T, o.T_err, o.rho4,
              o.rho4_err, o.e1, o.e2, o.e1err, o.e2err>>
CleanIsFinite == (Done /\ out[1].flags = {}) =>
  LET o == out[1] IN \A k \in 1..12 : IsNum(AllOf(o)[k])
SpecificImpliesOverall == Done =>
  ((out[1].flux_flags \cup out[1].T_flags \cup out[1].rho4_flags) # {} => out[1].flags # {})
FailedIsBlank == (Done /\ inp.fail # "") =>
  LET o == out[1] IN /\ inp.fail \in o.flags
     /\ \A k \in 1..12 : ~IsNum(AllOf(o)[k])
BlankWhenFlagged == Done =>
  LET o == out[1] IN
  /\ (o.flux_flags # {}) => ~IsNum(o.flux_err)
  /\ (o.T_flags # {}) => ~IsNum(o.T_err)
  /\ (o.rho4_flags # {}) => ~IsNum(o.rho4_err)
  /\ (o.flags # {}) => (~IsNum(o.e1) /\ ~IsNum(o.e2) /\ ~IsNum(o.e1err) /\ ~IsNum(o.e2err))
\* errors and ratios do not depend on the unit of flux
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
