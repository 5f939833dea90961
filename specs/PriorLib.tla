------------------------------ MODULE PriorLib -------------------------------
(* What a single prior says at a point: whether the point is in its support,  *)
(* and its log-probability, probability and residual there.                   *)
EXTENDS Rat, Integers, Sequences

(* ---- the support ---- *)
Rad2(x) == RAdd(RSq(x[1]), RSq(x[2]))
In(i, x) ==
  LET p == i.p
  IN CASE i.kind = "flat" -> RLe(p[1], x[1]) /\ RLe(x[1], p[2])
       [] i.kind = "trunc" -> RLe(p[3], x[1]) /\ RLe(x[1], p[4])
       [] i.kind = "lognormal" -> RLt(p[3], x[1])
       [] i.kind = "ba" -> RLt(Rad2(x), ROne)
       [] i.kind = "disk" -> RLt(Rad2(x), RSq(p[1]))
       [] OTHER -> TRUE

(* ---- the values ---- *)
Unit(x, m, s) == RDiv(RSub(x, m), s)
HalfSq(u) == RNeg(RDiv(RSq(u), RI(2)))
\* with a rational log-probability
LnpR(i, x) ==
  LET p == i.p
  IN CASE i.kind \in {"flat", "lmbounds", "disk"} -> RZero
       [] i.kind \in {"normal", "trunc", "normalb"} -> HalfSq(Unit(x[1], p[1], p[2]))
       [] i.kind = "cen" -> RAdd(HalfSq(Unit(x[1], p[1], p[3])), HalfSq(Unit(x[2], p[2], p[4])))
Rational == {"flat", "lmbounds", "disk", "normal", "normalb", "trunc", "cen"}
\* of the logarithm of a lognormal variable
LogVar(p) == TLog(RAdd(ROne, RSq(RDiv(p[2], p[1]))))
LogMean(p) == TSub(TLog(p[1]), TDiv(LogVar(p), RI(2)))
ErfP(p, x) == TDiv(TAdd(<<"erf", RDiv(RSub(p[3], x), p[4])>>, <<"erf", RDiv(RSub(x, p[1]), p[2])>>), RI(2))
BAProb(p, g2) == TMul(RSq(RSub(ROne, g2)), TExp(RNeg(RDiv(g2, RMul(RI(2), RSq(p[1]))))))
BALnp(p, g2) == TSub(TMul(RI(2), TLog(RSub(ROne, g2))), RDiv(g2, RMul(RI(2), RSq(p[1]))))
LNLnp(p, x) ==
  LET v == TLog(RSub(x, p[3]))
      d == TSub(v, LogMean(p))
  IN TSub(TSub(TNeg(TDiv(TMul(d, d), TMul(RI(2), LogVar(p)))), v),
          TSub(TDiv(LogVar(p), RI(2)), LogMean(p)))
Lnp(i, x) ==
  CASE i.kind \in Rational -> LnpR(i, x)
    [] i.kind = "erf" -> TLog(ErfP(i.p, x[1]))
    [] i.kind = "lognormal" -> LNLnp(i.p, x[1])
    [] i.kind = "ba" -> BALnp(i.p, Rad2(x))
    [] OTHER -> <<"none">>
Prob(i, x) ==
  CASE i.kind \in {"erf"} -> ErfP(i.p, x[1])
    [] i.kind = "ba" -> TMul(i.p[2], BAProb(i.p, Rad2(x)))       \* the amplitude is for fits
    [] i.kind \in {"sinh", "gauss"} -> <<"none">>
    [] OTHER -> TExp(Lnp(i, x))
\* the residual: with a sign where one is known
Fdiff(i, x) ==
  LET p == i.p
  IN CASE i.kind \in {"normal", "normalb", "trunc"} -> <<Unit(x[1], p[1], p[2])>>
       [] i.kind = "cen" -> <<Unit(x[1], p[1], p[3]), Unit(x[2], p[2], p[4])>>
       [] i.kind \in {"flat", "lmbounds"} -> <<RZero>>
       [] i.kind = "sinh" -> <<<<"sinh", Unit(x[1], p[1], p[2])>>>>
       [] i.kind \in {"erf", "lognormal", "ba"} ->
            <<TSqrt(<<"max", RZero, TMul(RI(-2), Lnp(i, x))>>)>>
       [] OTHER -> <<>>

==============================================================================
