------------------------------- MODULE Priors --------------------------------
(* Priors on one or two parameters: where they apply, their log-probability,  *)
(* probability and residual, what each form says outside of the support, and  *)
(* the distribution of their samples.                                         *)
EXTENDS PriorLib, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Flats, Erfs, Normals, Bounds, LogNormals, Sinhs, Truncs,
          BAs, Disks, Cens, Gausses,      \* parameters, tuples of rationals
          Ts, Ps                          \* relative points in one and two dimensions

VARIABLES inp, out
vars == <<inp, out>>

K(k, ps) == [kind : {k}, p : ps]
Cases == UNION {K("flat", Flats), K("erf", Erfs), K("normal", Normals), K("lmbounds", Bounds),
                K("lognormal", LogNormals), K("sinh", Sinhs), K("trunc", Truncs),
                K("ba", BAs), K("disk", Disks), K("cen", Cens), K("gauss", Gausses)}
Two == {"ba", "disk", "cen", "gauss"}

(* ---- points ---- *)
At1(i, t) ==
  LET p == i.p
      between(a, b) == RAdd(a, RMul(t, RSub(b, a)))
  IN CASE i.kind \in {"flat", "lmbounds"} -> between(p[1], p[2])
       [] i.kind = "erf" -> between(p[1], p[3])
       [] i.kind = "trunc" -> between(p[3], p[4])
       [] i.kind \in {"normal", "sinh"} -> RAdd(p[1], RMul(RMul(RI(4), t), p[2]))
       [] i.kind = "lognormal" -> RAdd(p[3], RMul(t, p[1]))
At2(i, t) ==
  LET p == i.p
  IN CASE i.kind \in {"ba", "gauss"} -> t
       [] i.kind = "disk" -> <<RMul(p[1], t[1]), RMul(p[1], t[2])>>
       [] i.kind = "cen" -> <<RAdd(p[1], RMul(p[3], RMul(RI(3), t[1]))),
                              RAdd(p[2], RMul(p[4], RMul(RI(3), t[2])))>>
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Points(i) == IF i.kind \in Two THEN SetToSeq({At2(i, t) : t \in Ps})
             ELSE SetToSeq({<<At1(i, t)>> : t \in Ts})

(* ---- what a form says outside: an error, the lowest value, or it has no    *)
(*      outside; "none" where the form does not exist                         *)
Policy(k) ==
  LET T(ps, pa, ls, la, fs, fa) == [prob_s |-> ps, prob_a |-> pa, lnprob_s |-> ls,
                                    lnprob_a |-> la, fdiff_s |-> fs, fdiff_a |-> fa]
  IN CASE k = "flat" -> T("raise", "raise", "raise", "raise", "raise", "none")
       [] k = "lognormal" -> T("raise", "raise", "raise", "raise", "raise", "none")
       [] k = "trunc" -> T("none", "none", "raise", "raise", "raise", "none")
       [] k \in {"erf", "normal", "cen"} -> T("all", "all", "all", "all", "all", "all")
       [] k \in {"lmbounds", "sinh"} -> T("none", "none", "none", "none", "all", "all")
       [] k = "ba" -> T("low", "low", "raise", "low", "raise", "low")
       [] k = "disk" -> T("low", "low", "raise", "none", "none", "none")
       [] k = "gauss" -> T("none", "none", "none", "none", "none", "none")

(* ---- the distribution of samples ---- *)
X == <<"var", "x">>
Half(t) == TDiv(t, RI(2))
Phi(u) == Half(TAdd(ROne, <<"erf", TDiv(u, TSqrt(RI(2)))>>))     \* of a unit normal
Z(m, s) == TDiv(TSub(X, m), s)
\* integral of erf
ErfInt(u) == TAdd(TMul(u, <<"erf", u>>), TDiv(TExp(TNeg(TMul(u, u))), TSqrt(TPi)))
R2 == TMul(X, X)
\* integral of g (1-g^2)^2 exp(-k g^2), up to a factor
BAInt(sig) ==
  LET k == RDiv(ROne, RMul(RI(2), RSq(sig)))
      w == TSub(ROne, R2)
  IN TNeg(TMul(TExp(TNeg(TMul(k, R2))),
               TAdd(TSub(TMul(w, w), TDiv(TMul(RI(2), w), k)), RDiv(RI(2), RSq(k)))))
C(what, g, lo, hi) == [what |-> what, g |-> g, lo |-> lo, hi |-> hi]
None == <<"none">>
Edge == Q(9999, 10000)
Samples(i) ==
  LET p == i.p
  IN CASE i.kind \in {"flat", "lmbounds"} -> <<C("x", X, p[1], p[2])>>
       [] i.kind = "sinh" -> <<C("x", X, RSub(p[1], p[2]), RAdd(p[1], p[2]))>>
       [] i.kind = "erf" -> <<C("x", TSub(TMul(p[2], ErfInt(Z(p[1], p[2]))), TMul(p[4], ErfInt(TNeg(Z(p[3], p[4]))) )),
                                RSub(p[1], RMul(RI(5), p[2])), RAdd(p[3], RMul(RI(5), p[4])))>>
       [] i.kind = "normal" -> <<C("x", Phi(Z(p[1], p[2])), None, None)>>
       [] i.kind = "trunc" -> <<C("x", Phi(Z(p[1], p[2])), p[3], p[4])>>
       [] i.kind = "lognormal" ->
            <<C("x", Phi(TDiv(TSub(TLog(TSub(X, p[3])), LogMean(p)), TSqrt(LogVar(p)))), None, None)>>
       [] i.kind = "cen" -> <<C("x", Phi(Z(p[1], p[3])), None, None), C("y", Phi(Z(p[2], p[4])), None, None)>>
       [] i.kind = "ba" -> <<C("r", BAInt(p[1]), RZero, Edge), C("angle", X, RZero, TMul(RI(2), TPi))>>
       [] i.kind = "disk" -> <<C("r", R2, RZero, p[1]), C("angle", X, RZero, TMul(RI(2), TPi))>>
       [] i.kind = "gauss" -> <<C("r", TNeg(TExp(TNeg(TDiv(R2, RMul(RI(2), RSq(p[1])))))), RZero, Edge),
                                C("angle", X, RZero, TMul(RI(2), TPi))>>

Mode(i) ==
  LET p == i.p
  IN CASE i.kind \in {"normal", "trunc", "sinh"} -> <<p[1]>>
       [] i.kind = "lognormal" -> <<TAdd(p[3], TExp(TSub(LogMean(p), LogVar(p))))>>
       [] i.kind = "cen" -> <<p[1], p[2]>>
       [] i.kind = "ba" -> <<RZero, RZero>>
       [] OTHER -> <<>>
\* |g| of the highest one-dimensional probability: a root of a quadratic in its square
Mode1(i) ==
  IF i.kind # "ba" THEN <<>>
  ELSE LET s2 == RSq(i.p[1])
           b == RAdd(ROne, RMul(RI(5), s2))
       IN <<TSqrt(TDiv(RMul(RI(2), s2), TAdd(b, TSqrt(RSub(RSq(b), RMul(RI(4), s2))))))>>

Answer(i) ==
  [pts |-> [k \in 1..Len(Points(i)) |->
     LET x == Points(i)[k]
         in == In(i, x)
     IN [x |-> x, in |-> in, lnp |-> IF in THEN Lnp(i, x) ELSE None,
         prob |-> IF in THEN Prob(i, x) ELSE None, fdiff |-> IF in THEN Fdiff(i, x) ELSE <<>>]],
   policy |-> Policy(i.kind), samples |-> Samples(i), mode |-> Mode(i), mode1 |-> Mode1(i)]
Init == inp \in Cases /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp /\ out' = <<Answer(inp)>>

Pts == out[1].pts
\* never above the mode, where the logarithm of the probability is zero
Peak == out # <<>> /\ inp.kind \in Rational =>
  \A k \in 1..Len(Pts) : Pts[k].in => RLe(Pts[k].lnp, RZero)
ModeIsZero == out # <<>> /\ inp.kind \in Rational /\ out[1].mode # <<>> => LnpR(inp, out[1].mode) = RZero
\* the residuals' squares sum to minus twice the logarithm
Squares == out # <<>> /\ inp.kind \in {"normal", "trunc", "cen", "flat", "lmbounds"} =>
  \A k \in 1..Len(Pts) : Pts[k].in =>
    RSum([j \in 1..Len(Pts[k].fdiff) |-> RSq(Pts[k].fdiff[j])]) = RMul(RI(-2), Pts[k].lnp)
\* a point further out in a round prior is never more likely: checked on its square
Farther == out # <<>> /\ inp.kind \in {"ba", "disk"} =>
  \A k, l \in 1..Len(Pts) : (Pts[l].in /\ RLe(Rad2(Pts[k].x), Rad2(Pts[l].x))) => Pts[k].in
\* something is in, and something is out where there is an outside
Both == out # <<>> => /\ \E k \in 1..Len(Pts) : Pts[k].in
                      /\ inp.kind \in {"flat", "lognormal", "ba", "disk"} => \E k \in 1..Len(Pts) : ~Pts[k].in
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
