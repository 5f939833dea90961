--------------------------------- MODULE WMom ---------------------------------
(* Gaussian weighted moments in real space: the sum over the pixels of image   *)
(* times weight (one at the centre) times a function of position.  The functions   *)
(* are made of powers of the position as a complex number.                     *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Stamps,   \* set of [dims, jac (cen row, col, dvdrow, dvdcol, dudrow, dudcol), wt]
          Orders    \* subset of {6, 17}

VARIABLES inp, out
vars == <<inp, out>>

CMul(x, y) == <<RSub(RMul(x[1], y[1]), RMul(x[2], y[2])), RAdd(RMul(x[1], y[2]), RMul(x[2], y[1]))>>
CScale(r, x) == <<RMul(r, x[1]), RMul(r, x[2])>>

NPix(i) == i.stamp.dims[1] * i.stamp.dims[2]
PRow(i, k) == RI((k - 1) \div i.stamp.dims[2])
PCol(i, k) == RI((k - 1) % i.stamp.dims[2])
\* position u + iv
Pos(i, k) == LET j == i.stamp.jac
                 r == RSub(PRow(i, k), j[1]) c == RSub(PCol(i, k), j[2])
             IN <<RAdd(RMul(j[5], r), RMul(j[6], c)), RAdd(RMul(j[3], r), RMul(j[4], c))>>
R2(z) == RAdd(RSq(z[1]), RSq(z[2]))
Fn(z, n) ==
  LET z2 == CMul(z, z)
      z3 == CMul(z2, z)
      z4 == CMul(z2, z2)
      r2 == R2(z)
      r4 == RSq(r2)
      low == <<z[2], z[1], z2[1], z2[2], r2, ROne>>
      high == <<RMul(r2, z[1]), RMul(r2, z[2]), z3[1], z3[2], r4,
                RMul(r2, z2[1]), RMul(r2, z2[2]), z4[1], z4[2], RMul(r4, r2), RSq(r4)>>
  IN IF n = 6 THEN low ELSE low \o high
Wt(i, k) == i.stamp.wt[((k - 1) % Len(i.stamp.wt)) + 1]
Used(i) == SelectSeq([k \in 1..NPix(i) |-> k], LAMBDA k : Wt(i, k) > 0)
V(s) == <<"var", s>>
Tot(x) == <<"total", x>>
Answer(i) ==
  [used |-> Used(i), r2 |-> [x \in 1..Len(Used(i)) |-> R2(Pos(i, Used(i)[x]))],
   F |-> [x \in 1..Len(Used(i)) |-> Fn(Pos(i, Used(i)[x]), i.order)],
   var |-> [x \in 1..Len(Used(i)) |-> Q(1, Wt(i, Used(i)[x]))],
   \* w: of a weight with fwhm 'fwhm' and peak one, d the image, f, g two functions
   w |-> TExp(TNeg(TMul(TMul(RI(4), TLog(RI(2))), TDiv(V("r2"), TPow(V("fwhm"), RI(2)))))),
   sum |-> Tot(TMul(TMul(V("w"), V("d")), V("f"))),
   cov |-> Tot(TMul(TMul(TPow(V("w"), RI(2)), V("var")), TMul(V("f"), V("g")))),
   norm |-> Tot(V("w"))]
Init == inp \in [stamp : Stamps, order : Orders] /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp
Done == out # <<>>

(* ---- properties ---- *)
\* the number of turns each function makes in one turn of the sky: pairs (real, imaginary)
Pairs == {<<2, 1, 1>>, <<3, 4, 2>>, <<7, 8, 1>>, <<9, 10, 3>>, <<12, 13, 2>>, <<14, 15, 4>>}
Invariants == {5, 6, 11, 16, 17}
Turned(z) == <<RNeg(z[2]), z[1]>>
Times(x, s) == CASE s % 4 = 0 -> x [] s % 4 = 1 -> <<RNeg(x[2]), x[1]>>
                 [] s % 4 = 2 -> <<RNeg(x[1]), RNeg(x[2])>> [] OTHER -> <<x[2], RNeg(x[1])>>
Spins == Done => \A k \in 1..NPix(inp) :
   LET z == Pos(inp, k) f == Fn(z, inp.order) g == Fn(Turned(z), inp.order)
   IN /\ \A p \in {p \in Pairs : p[2] <= inp.order} :
           <<g[p[1]], g[p[2]]>> = Times(<<f[p[1]], f[p[2]]>>, p[3])
      /\ \A x \in {x \in Invariants : x <= inp.order} : g[x] = f[x]
\* modulus of every pair is a power of the radius
Moduli == Done => \A k \in 1..NPix(inp) :
   LET z == Pos(inp, k) f == Fn(z, inp.order)
   IN \A p \in {p \in {<<2, 1, 1>>, <<3, 4, 2>>, <<9, 10, 3>>} : p[2] <= inp.order} :
        RAdd(RSq(f[p[1]]), RSq(f[p[2]])) = RProd([x \in 1..p[3] |-> R2(z)])
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
===============================================================================
