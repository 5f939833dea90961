------------------------------- MODULE Moments -------------------------------
(* The summary of a set of measured moment sums <<Mv, Mu, M1, M2, MT, MF>>    *)
(* and their covariance: which quantities are usable, what they are, and what *)
(* is flagged.                                                                *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fluxes, Sizes, Shapes1, Shapes2,   \* values of MF, MT, M1, M2
          VarSets,    \* set of <<var v, u, M1, M2, MT, MF>>
          CorSets,    \* set of <<cov(M1,MT), cov(M2,MT), cov(MT,MF), cov(M1,MF), cov(M2,MF)>>
          Odd,        \* what is not a number: "none", "cen" (the centroid sums), "c1T", "c2T"
          Regs        \* regularising sizes, zero for none

VARIABLES inp, out
vars == <<inp, out>>

Cases == [MF : Fluxes, MT : Sizes, M1 : Shapes1, M2 : Shapes2, var : VarSets,
          cor : CorSets, odd : Odd, reg : Regs]

Pos(x) == RSign(x) > 0
\* variance of a ratio a/b of correlated quantities, to first order
RatioVar(a, b, va, vb, cab) ==
  LET r == TDiv(a, b)
  IN TDiv(TSub(TAdd(va, TMul(TPow(r, RI(2)), vb)), TMul(RI(2), TMul(r, cab))), TPow(b, RI(2)))
Err(v) == TSqrt(<<"max", v, RZero>>)

Bad(i) == i.odd \in {"c1T", "c2T"}

\* the rows 3..6 of sums and covariance after adding reg times the flux to the size
MT(i) == RAdd(i.MT, RMul(i.reg, i.MF))
VarT(i) == RSum(<<i.var[5], RMul(RMul(RI(2), i.reg), i.cor[3]), RMul(RSq(i.reg), i.var[6])>>)
C1T(i) == RAdd(i.cor[1], RMul(i.reg, i.cor[4]))
C2T(i) == RAdd(i.cor[2], RMul(i.reg, i.cor[5]))
Vars(i) == <<i.var[1], i.var[2], i.var[3], i.var[4], VarT(i), i.var[6]>>

\* what each quantity rests on
FluxBad(i) == IF Pos(i.var[6]) THEN {} ELSE {"NONPOS_VAR"}
TBad(i) == IF ~(Pos(i.var[6]) /\ Pos(i.var[5])) THEN {"NONPOS_VAR"}
           ELSE IF ~Pos(i.MF) THEN {"NONPOS_FLUX"} ELSE {}
AllVar(i) == \A k \in 1..6 : Pos(Vars(i)[k])
\* a result without regularisation and one with
Flags0(i) == LET j == [i EXCEPT !.reg = RZero] IN
             IF ~AllVar(j) THEN {"NONPOS_VAR"}
             ELSE IF ~Pos(j.MF) THEN {"NONPOS_FLUX"}
             ELSE IF ~Pos(j.MT) THEN {"NONPOS_SIZE"}
             ELSE IF Bad(j) THEN {"NONPOS_SHAPE_VAR"} ELSE {}
FlagsR(i) == IF ~AllVar(i) THEN {"NONPOS_VAR"}
             ELSE IF ~Pos(i.MF) THEN {"NONPOS_FLUX"}
             ELSE IF ~Pos(MT(i)) THEN {"NONPOS_SIZE"}
             ELSE IF Bad(i) THEN {"NONPOS_SHAPE_VAR"} ELSE {}
Flags(i) == Flags0(i) \cup FlagsR(i)
HasShape(i) == FlagsR(i) \subseteq {"NONPOS_SHAPE_VAR"}

Answer(i) ==
  [flags |-> Flags(i), flux_flags |-> FluxBad(i), T_flags |-> TBad(i),
   flux |-> i.MF,
   flux_err |-> IF FluxBad(i) = {} THEN TSqrt(i.var[6]) ELSE TNaN,
   s2n |-> IF FluxBad(i) = {} THEN TDiv(i.MF, TSqrt(i.var[6])) ELSE TNaN,
   T |-> IF TBad(i) = {} THEN RDiv(i.MT, i.MF) ELSE TNaN,
   T_err |-> IF TBad(i) = {} THEN Err(RatioVar(i.MT, i.MF, i.var[5], i.var[6], i.cor[3])) ELSE TNaN,
   e1 |-> IF HasShape(i) THEN RDiv(i.M1, MT(i)) ELSE TNaN,
   e2 |-> IF HasShape(i) THEN RDiv(i.M2, MT(i)) ELSE TNaN,
   e1_err |-> IF HasShape(i) /\ ~Bad(i)
              THEN Err(RatioVar(i.M1, MT(i), i.var[3], VarT(i), C1T(i))) ELSE TNaN,
   e2_err |-> IF HasShape(i) /\ ~Bad(i)
              THEN Err(RatioVar(i.M2, MT(i), i.var[4], VarT(i), C2T(i))) ELSE TNaN,
   pars |-> HasShape(i),
   sums |-> <<i.M1, i.M2, MT(i), i.MF>>,
   sums_err |-> [k \in 1..6 |-> IF AllVar(i) THEN TSqrt(Vars(i)[k]) ELSE TNaN],
   \* moments per unit flux
   named |-> [k \in 1..4 |-> IF Pos(i.MF)
                THEN RDiv(<<i.M1, i.M2, MT(i), i.MF>>[k], i.MF) ELSE TNaN],
   named_err |-> IF AllVar(i) /\ Pos(i.MF)
     THEN <<Err(RatioVar(i.M1, i.MF, i.var[3], i.var[6], i.cor[4])),
            Err(RatioVar(i.M2, i.MF, i.var[4], i.var[6], i.cor[5])),
            Err(RatioVar(MT(i), i.MF, VarT(i), i.var[6], RAdd(i.cor[3], RMul(i.reg, i.var[6]))))>>
     ELSE <<>>]

\* covariances no data can have are left out
Possible(i) ==
  LET le(c, a, b) == ~Pos(i.var[a]) \/ ~Pos(i.var[b]) \/ RLe(RSq(i.cor[c]), RMul(i.var[a], i.var[b]))
  IN /\ le(1, 3, 5) /\ le(2, 4, 5) /\ le(3, 5, 6) /\ le(4, 3, 6) /\ le(5, 4, 6)
     /\ Bad(i) => i.reg = RZero
     /\ i.reg # RZero => MT(i) # RZero
     /\ \A c \in {1, 2, 3, 4, 5} : (\E k \in 3..6 : ~Pos(i.var[k])) => i.cor[c] = RZero

Init == inp \in {i \in Cases : Possible(i)} /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp

(* ---- properties ---- *)
Done == out # <<>>
IsNum(x) == x # TNaN
CleanIsFinite == (Done /\ out[1].flags = {}) =>
   LET o == out[1] IN
   /\ IsNum(o.flux_err) /\ IsNum(o.s2n) /\ IsNum(o.T) /\ IsNum(o.T_err)
   /\ IsNum(o.e1) /\ IsNum(o.e2) /\ IsNum(o.e1_err) /\ IsNum(o.e2_err)
   /\ o.flux_flags = {} /\ o.T_flags = {} /\ o.pars
   /\ Pos(inp.MF) /\ Pos(inp.MT) /\ \A k \in 1..6 : Pos(inp.var[k])
SpecificImpliesOverall == ~Done \/
   ((out[1].flux_flags # {} \/ out[1].T_flags # {}) => out[1].flags # {})
BlankWhenFlagged == Done =>
   /\ (out[1].flux_flags # {}) => (~IsNum(out[1].flux_err) /\ ~IsNum(out[1].s2n))
   /\ (out[1].T_flags # {}) => (~IsNum(out[1].T) /\ ~IsNum(out[1].T_err))
   /\ (inp.reg = RZero /\ out[1].flags # {}) => (~IsNum(out[1].e1_err) /\ ~IsNum(out[1].e2_err))
\* nothing but the flux and its variance decides on the flux, likewise the size
OwnInputsOnly == Done =>
   LET i == inp IN
   /\ (out[1].flux_flags = {}) = Pos(i.var[6])
   /\ (out[1].T_flags = {}) = (Pos(i.var[6]) /\ Pos(i.var[5]) /\ Pos(i.MF))
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
=============================================================================
