------------------------------ MODULE AdmomStep ------------------------------
(* One iteration of adaptive moments: a program of definitions and tests over *)
(* the current weight (row, col, irr, irc, icc) and the pixels (v, u, val,    *)
(* var, area).  Pixel positions and variances are exact; the algebra that     *)
(* takes the weight out of measured moments is stated once and checked        *)
(* exactly on rationals before it is handed out as terms.                     *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Images,     \* <<dims, pixel values>>
          Jacs, Guesses, Wts, Shifts, CenOnly,
          Covs        \* covariances for the exact algebra

VARIABLES inp, out
vars == <<inp, out>>

Cases == [img : Images, jac : Jacs, guess : Guesses, wt : Wts, shift : Shifts, cenonly : CenOnly]

N(d) == d[1] * d[2]
PRow(d, k) == (k - 1) \div d[2]
PCol(d, k) == (k - 1) % d[2]
At(pat, k) == pat[((k - 1) % Len(pat)) + 1]
V(j, d, k) == RAdd(RMul(j[3], RSub(RI(PRow(d, k)), j[1])),
                   RMul(j[4], RSub(RI(PCol(d, k)), j[2])))
U(j, d, k) == RAdd(RMul(j[5], RSub(RI(PRow(d, k)), j[1])),
                   RMul(j[6], RSub(RI(PCol(d, k)), j[2])))
Area(j) == RAbs(RSub(RMul(j[3], j[6]), RMul(j[4], j[5])))

\* weighted moments m under weight w belong to an object with covariance
\* (m^-1 - w^-1)^-1; a covariance is <<irr, irc, icc>>
DetOf(S(_, _), M(_, _), c) == S(M(c[1], c[3]), M(c[2], c[2]))
InvOf(S(_, _), M(_, _), D(_, _), Neg(_), c) ==
  LET det == DetOf(S, M, c) IN <<D(c[3], det), Neg(D(c[2], det)), D(c[1], det)>>
Net(S(_, _), M(_, _), D(_, _), Neg(_), m, w) ==
  LET a == InvOf(S, M, D, Neg, m)
      b == InvOf(S, M, D, Neg, w)
  IN <<S(a[1], b[1]), S(a[2], b[2]), S(a[3], b[3])>>
Deweight(S(_, _), M(_, _), D(_, _), Neg(_), m, w) ==
  InvOf(S, M, D, Neg, Net(S, M, D, Neg, m, w))

\* what a gaussian object measures under a gaussian weight
Product(w, c) ==
  LET a == InvOf(RSub, RMul, RDiv, RNeg, w)
      b == InvOf(RSub, RMul, RDiv, RNeg, c)
  IN InvOf(RSub, RMul, RDiv, RNeg, <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>)

ASSUME Recovers ==
  \A w \in Covs, c \in Covs : Deweight(RSub, RMul, RDiv, RNeg, Product(w, c), w) = c
\* at the fixed point the measured moments are half of the weight's
ASSUME FixedPoint ==
  \A w \in Covs : Product(w, w) = <<RMul(w[1], Q(1, 2)), RMul(w[2], Q(1, 2)), RMul(w[3], Q(1, 2))>>

(* ---- the program ---- *)
X(n) == <<"var", n>>
Two == RI(2)
Half == Q(1, 2)
Let(n, t) == <<"let", n, t>>
If(n, c) == <<"exit", n, c>>
Lt(x, y) == <<"lt", x, y>>
Le(x, y) == <<"le", x, y>>
Abs(x) == <<"abs", x>>
Total(x) == <<"total", x>>
M3(x, y, z) == TMul(x, TMul(y, z))

Det == TSub(TMul(X("irr"), X("icc")), TMul(X("irc"), X("irc")))
Chi2(dv, du) ==
  TDiv(TSub(TAdd(M3(X("icc"), dv, dv), M3(X("irr"), du, du)),
            TMul(Two, M3(X("irc"), dv, du))), X("det"))
WeightAt(row, col) ==
  M3(X("p"), X("norm"),
     TMul(X("area"), <<"gauss", Chi2(TSub(X("v"), row), TSub(X("u"), col))>>))
Dv == TSub(X("v"), X("row"))
Du == TSub(X("u"), X("col"))
F == << X("v"), X("u"),
        TSub(TMul(Du, Du), TMul(Dv, Dv)),
        TMul(Two, TMul(Dv, Du)),
        TAdd(TMul(Du, Du), TMul(Dv, Dv)),
        ROne,
        TMul(Chi2(Dv, Du), Chi2(Dv, Du)) >>
Sn(k) == <<"s1", "s2", "s3", "s4", "s5", "s6", "s7">>[k]
Fn(k) == <<"f1", "f2", "f3", "f4", "f5", "f6", "f7">>[k]
TNeg0(x) == TNeg(x)
Measured == <<X("mrr"), X("mrc"), X("mcc")>>
Weight == <<X("irr"), X("irc"), X("icc")>>

Prog(cenonly) ==
  << Let("det", Det),
     If("degenerate", Lt(X("det"), X("low"))),
     \* a positive determinant does not make it a gaussian
     If("unnormalisable", Le(TAdd(X("irr"), X("icc")), X("low"))),
     Let("norm", TDiv(ROne, TMul(TMul(Two, TPi), TSqrt(X("det"))))),
     Let("w", WeightAt(X("row"), X("col"))),
     Let("c1", Total(M3(X("w"), X("val"), X("v")))),
     Let("c2", Total(M3(X("w"), X("val"), X("u")))),
     Let("c6", Total(TMul(X("w"), X("val")))),
     If("dark", Le(X("c6"), RZero)),
     Let("row", TDiv(X("c1"), X("c6"))),
     Let("col", TDiv(X("c2"), X("c6"))),
     If("far", <<"or", Lt(X("shiftmax"), Abs(TSub(X("row"), X("row0")))),
                       Lt(X("shiftmax"), Abs(TSub(X("col"), X("col0"))))>>),
     Let("w", WeightAt(X("row"), X("col"))) >>
  \o [k \in 1..7 |-> Let(Fn(k), F[k])]
  \o [k \in 1..7 |-> Let(Sn(k), Total(M3(X("w"), X("val"), X(Fn(k)))))]
  \o << Let("wsum", Total(TMul(X("w"), <<"ones", X("v")>>))),
        <<"sums">>,
        If("darker", Le(X("s6"), RZero)),
        Let("T", TDiv(X("s5"), X("s6"))),
        If("nosize", Le(X("T"), RZero)),
        Let("e1", TDiv(X("s3"), X("s5"))),
        Let("e2", TDiv(X("s4"), X("s5"))),
        If("settled", <<"and", <<"and", Lt(Abs(TSub(X("e1"), X("e1old"))), X("etol")),
                                        Lt(Abs(TSub(X("e2"), X("e2old"))), X("etol"))>>,
                        Lt(Abs(TSub(TDiv(X("T"), X("Told")), ROne)), X("Ttol"))>>) >>
  \o (IF cenonly THEN << >> ELSE
     << Let("mrr", TMul(Half, TDiv(TSub(X("s5"), X("s3")), X("s6")))),
        Let("mcc", TMul(Half, TDiv(TAdd(X("s5"), X("s3")), X("s6")))),
        Let("mrc", TMul(Half, TDiv(X("s4"), X("s6")))),
        If("unweightable", Le(DetOf(TSub, TMul, Measured), X("low"))),
        Let("nrr", Net(TSub, TMul, TDiv, TNeg0, Measured, Weight)[1]),
        Let("nrc", Net(TSub, TMul, TDiv, TNeg0, Measured, Weight)[2]),
        Let("ncc", Net(TSub, TMul, TDiv, TNeg0, Measured, Weight)[3]),
        If("unweightable", Le(DetOf(TSub, TMul, <<X("nrr"), X("nrc"), X("ncc")>>), X("low"))),
        Let("irr", InvOf(TSub, TMul, TDiv, TNeg0, <<X("nrr"), X("nrc"), X("ncc")>>)[1]),
        Let("irc0", InvOf(TSub, TMul, TDiv, TNeg0, <<X("nrr"), X("nrc"), X("ncc")>>)[2]),
        Let("icc0", TDiv(X("nrr"), DetOf(TSub, TMul, <<X("nrr"), X("nrc"), X("ncc")>>))),
        Let("irc", X("irc0")),
        Let("icc", X("icc0")) >>)
  \o << Let("e1old", X("e1")), Let("e2old", X("e2")), Let("Told", X("T")) >>

\* covariance of two sums
Cov == [a \in 1..7 |-> [b \in 1..7 |->
          IF a > b THEN RZero
          ELSE Total(TMul(M3(X("w"), X("w"), X("var")), TMul(X(Fn(a)), X(Fn(b)))))]]

\* the summary of a clean end
Fnorm == M3(X("area"), X("norm"), X("wsum"))
Summary ==
  << Let("pars1", X("row")), Let("pars2", X("col")),
     Let("pars3", TSub(X("icc"), X("irr"))), Let("pars4", TMul(Two, X("irc"))),
     Let("pars5", TAdd(X("icc"), X("irr"))),
     Let("flux_mean", TDiv(X("s6"), X("wsum"))),
     Let("flux", TDiv(X("s6"), Fnorm)) >>

Init == inp \in Cases /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp /\ out' = <<
  LET d == inp.img[1] IN
  [v |-> [k \in 1..N(d) |-> V(inp.jac, d, k)], u |-> [k \in 1..N(d) |-> U(inp.jac, d, k)],
   val |-> [k \in 1..N(d) |-> inp.img[2][k]],
   var |-> [k \in 1..N(d) |-> IF At(inp.wt, k) > 0 THEN Q(1, At(inp.wt, k)) ELSE RZero],
   kept |-> [k \in 1..N(d) |-> At(inp.wt, k) > 0],
   area |-> Area(inp.jac)]>>
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
\* the programs, once
EmitProg == PrintT(ToJson([prog |-> TRUE, full |-> Prog(FALSE), cen |-> Prog(TRUE), cov |-> Cov,
                           summary |-> Summary]))
ASSUME EmitProg
==============================================================================
