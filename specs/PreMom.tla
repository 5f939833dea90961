-------------------------------- MODULE PreMom --------------------------------
(* Moments of an image before its psf.  The transform of the image about its   *)
(* centre is divided by that of the psf about its own, and every moment is the *)
(* sum of that over the modes with a kernel.  What each of these is, is given  *)
(* as terms over the modes; the laws are checked by evaluating the same terms  *)
(* exactly on a grid of four by four modes, where the transforms are Gaussian  *)
(* integers and the kernels are any numbers.                                   *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Images,    \* set of sequences of 16 integers, images of 4 x 4 pixels
          Psfs,      \* likewise
          Kernels,   \* set of sequences of 16 integers over the modes
          Plans      \* set of [kernel, img, psf, pad, ap, smooth, wt, how]: what is measured

VARIABLES inp, out
vars == <<inp, out>>

V(s) == <<"var", s>>
L(n) == <<"lit", RI(n)>>
LQ(n, d) == <<"lit", Q(n, d)>>
Tot(x) == <<"total", x>>
TMax(x, y) == <<"max", x, y>>
Sq(x) == TMul(x, x)

(* ---- terms ---- *)
\* a, b: transform of the image about its centre; c, d: of the psf; K*: kernels
Amp2 == TAdd(Sq(V("c")), Sq(V("d")))
\* the real part of (a + ib) / (c + id)
Deconvolved == TDiv(TAdd(TMul(V("a"), V("c")), TMul(V("b"), V("d"))), Amp2)
MomentT(k) == TDiv(Tot(TMul(V(k), Deconvolved)), Sq(V("dim")))
CovT(j, k) == TDiv(TMul(TMul(V("totvar"), Sq(V("pad"))), Tot(TDiv(TMul(V(j), V(k)), Amp2))),
                   TMul(Sq(V("dim")), Sq(V("dim"))))
Names == <<"Kp", "Kc", "Kr", "Kf">>
\* amplitudes of the psf below a part in 10^5 of its flux are raised to that, keeping
\* their phase; where there is no amplitude at all the floor is used as it is
Floor == TMul(LQ(1, 100000), V("psfflux"))
Raise == TMax(L(1), TDiv(V("floor"), TSqrt(Amp2)))

\* modes in sky coordinates, from those in cycles per pixel
Det == TSub(TMul(V("dvdrow"), V("dudcol")), TMul(V("dvdcol"), V("dudrow")))
TwoPi == TMul(L(2), TPi)
KV == TDiv(TMul(TwoPi, TSub(TMul(V("dudcol"), V("fy")), TMul(V("dudrow"), V("fx")))), Det)
KU == TDiv(TMul(TwoPi, TSub(TMul(V("dvdrow"), V("fx")), TMul(V("dvdcol"), V("fy")))), Det)
K2 == TAdd(Sq(V("kv")), Sq(V("ku")))
SigmaOf(fwhm) == TDiv(fwhm, TSqrt(TMul(L(8), TLog(L(2)))))
\* the weight as a function of k2 and its first two derivatives by it
Inside == TMax(L(0), TSub(L(1), TDiv(V("k2"), V("kmax2"))))
Weight(kernel) ==
  IF kernel = "ksigma"
  THEN [kmax2 |-> TDiv(L(8), Sq(V("sigma"))),
        w |-> TPow(V("in"), L(4)),
        w1 |-> TNeg(TMul(TDiv(L(4), V("kmax2")), TPow(V("in"), L(3)))),
        w2 |-> TMul(TDiv(L(12), Sq(V("kmax2"))), TPow(V("in"), L(2))),
        \* one over its value at the centre in real space
        norm |-> TDiv(TMul(TMul(L(10), TPi), Sq(V("sigma"))), L(4))]
  ELSE [kmax2 |-> TDiv(L(25), Sq(V("sigma"))),
        w |-> <<"gauss", TMul(Sq(V("sigma")), V("k2"))>>,
        w1 |-> TMul(TMul(LQ(-1, 2), Sq(V("sigma"))), V("w")),
        w2 |-> TMul(TMul(LQ(1, 4), TPow(V("sigma"), L(4))), V("w")),
        norm |-> TMul(TwoPi, Sq(V("sigma")))]
\* the norm of the kernel in pixels, and its sum over the modes, which is one when the
\* modes resolve the kernel
Norm(kernel) == TDiv(Weight(kernel).norm, <<"abs", Det>>)
Resolved == TDiv(TMul(V("norm"), Tot(V("w"))), Sq(V("dim")))
\* u^2 in real space is minus the second derivative by ku: r^2, u^2 - v^2 and 2uv
KernelT == [Kf |-> V("w"),
            Kr |-> TNeg(TMul(L(4), TAdd(V("w1"), TMul(V("k2"), V("w2"))))),
            Kp |-> TMul(TMul(L(-4), TSub(Sq(V("ku")), Sq(V("kv")))), V("w2")),
            Kc |-> TMul(TMul(L(-8), TMul(V("ku"), V("kv"))), V("w2"))]
Smooth(i) == IF i.smooth = RZero THEN L(1)
             ELSE <<"gauss", TMul(Sq(SigmaOf(<<"lit", i.smooth>>)), V("k2"))>>
\* the transform of a pixel
\* the edge: a cumulative triweight of half width 3h about row m
ApY == TAdd(TDiv(TSub(V("x"), V("m")), V("h")), L(3))
ApPoly == TAdd(TAdd(TAdd(TAdd(TMul(LQ(-5, 69984), TPow(V("y"), L(7))),
             TMul(LQ(7, 2592), TPow(V("y"), L(5)))),
             TMul(LQ(-35, 864), TPow(V("y"), L(3)))), TMul(LQ(35, 96), V("y"))), LQ(1, 2))
\* rows from the edge which are tapered: 0..range; range is 6h rounded
ApRange(h) == LET x == RAdd(RMul(RI(6), h), Q(1, 2)) IN x[1] \div x[2]

\* the size of the transform
MaxI(a, b) == IF a > b THEN a ELSE b
Dim(i) == LET n == IF i.psf = "none" THEN i.img ELSE MaxI(i.img, i.psfdim)
              x == RMul(RI(n), i.pad)
          IN x[1] \div x[2]

Program(i) ==
  LET w == Weight(i.kernel)
  IN [dim |-> Dim(i), eff |-> Q(Dim(i), i.img), kv |-> KV, ku |-> KU, k2 |-> K2,
      sigma |-> SigmaOf(V("fwhm")), kmax2 |-> w.kmax2, within |-> Inside, w |-> w.w, w1 |-> w.w1,
      w2 |-> w.w2, norm |-> Norm(i.kernel), resolved |-> Resolved, kernels |-> KernelT,
      smooth |-> Smooth(i), floor |-> Floor, raise |-> Raise, apy |-> ApY, ap |-> ApPoly,
      aprange |-> ApRange(i.ap), names |-> Names,
      moments |-> [k \in 1..4 |-> MomentT(Names[k])],
      cov |-> [j \in 1..4 |-> [k \in 1..4 |-> CovT(Names[j], Names[k])]]]

(* ---- the laws, on four by four modes ---- *)
I4 == 0..3
At(m, r, c) == m[4 * r + c + 1]
\* powers of i
Ipow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>>
             [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RECURSIVE Sum16(_, _)
Sum16(f, k) == IF k > 16 THEN 0 ELSE f[k] + Sum16(f, k + 1)
Row(k) == (k - 1) \div 4
Col(k) == (k - 1) % 4
\* sum over pixels of m * exp(-2 pi i (mode . (x - cen)) / 4), part 1 real, 2 imaginary
FT(m, cen, mode, part) ==
  Sum16([k \in 1..16 |-> m[k] * Ipow(-(Row(mode) * (Row(k) - cen[1])
                                       + Col(mode) * (Col(k) - cen[2])))[part]], 1)
RECURSIVE Ev(_, _)
Ev(t, e) ==
  CASE t[1] = "lit" -> t[2]
    [] t[1] = "var" -> e[t[2]]
    [] t[1] = "add" -> RAdd(Ev(t[2], e), Ev(t[3], e))
    [] t[1] = "sub" -> RSub(Ev(t[2], e), Ev(t[3], e))
    [] t[1] = "mul" -> RMul(Ev(t[2], e), Ev(t[3], e))
    [] t[1] = "div" -> RDiv(Ev(t[2], e), Ev(t[3], e))
    [] t[1] = "total" -> RSum([m \in 1..16 |-> Ev(t[2], e.modes[m])])
\* kern: names to sequences of 16; dim 4, padding factor pad
Env(img, ci, psf, cp, kern, totvar, pad) ==
  [dim |-> RI(4), totvar |-> totvar, pad |-> pad,
   modes |-> [m \in 1..16 |->
     [a |-> RI(FT(img, ci, m, 1)), b |-> RI(FT(img, ci, m, 2)),
      c |-> RI(FT(psf, cp, m, 1)), d |-> RI(FT(psf, cp, m, 2)),
      Kf |-> RI(kern[m])]]]
Mom(e) == Ev(MomentT("Kf"), e)
Cov(e) == Ev(CovT("Kf", "Kf"), e)
Delta(k) == [x \in 1..16 |-> IF x = k THEN 1 ELSE 0]
Roll(m, r, c) == [k \in 1..16 |-> At(m, (Row(k) - r) % 4, (Col(k) - c) % 4)]
Times(m, n) == [k \in 1..16 |-> n * m[k]]
Plus(m, n) == [k \in 1..16 |-> m[k] + n[k]]
\* a psf with an amplitude in every mode
Sharp(p) == \A m \in 1..16 : FT(p, <<0, 0>>, m, 1) # 0 \/ FT(p, <<0, 0>>, m, 2) # 0
C0 == <<1, 2>>
One(img, psf, kern) == Mom(Env(img, C0, psf, <<0, 0>>, kern, ROne, ROne))
Response(psf, kern) == [k \in 1..16 |-> One(Delta(k), psf, kern)]
RDot(m, r) == RSum([k \in 1..16 |-> RMul(RI(m[k]), r[k])])

Law(l) ==
  LET i == l.img p == l.psf k == l.kern
      base == One(i, p, k)
      r == Response(p, k)
      cov == Cov(Env(i, C0, p, <<0, 0>>, k, RI(16 * 3), ROne))
  IN \* every pixel adds its value times what one of it would
     /\ base = RDot(i, r)
     \* as far as the image has moved and its centre with it
     /\ Mom(Env(Roll(i, 1, 3), <<2, 5>>, p, <<0, 0>>, k, ROne, ROne)) = base
     \* the same for the psf
     /\ Mom(Env(i, C0, Roll(p, 2, 1), <<2, 1>>, k, ROne, ROne)) = base
     /\ Cov(Env(i, C0, Roll(p, 2, 1), <<2, 1>>, k, RI(16 * 3), ROne)) = cov
     \* the psf divides
     /\ One(i, Times(p, -3), k) = RDiv(base, RI(-3))
     /\ One(Times(i, 5), p, k) = RMul(RI(5), base)
     /\ One(Plus(i, Delta(7)), p, k) = RAdd(base, r[7])
     \* the error is that of independent pixels of variance three
     /\ cov = RMul(RI(3), RSum([x \in 1..16 |-> RSq(r[x])]))
     \* and does not depend on the image
     /\ cov = Cov(Env(Delta(3), C0, p, <<0, 0>>, k, RI(16 * 3), ROne))
\* kernels are those of real functions
Even(k) == [m \in 1..16 |-> k[m] + k[4 * ((4 - Row(m)) % 4) + ((4 - Col(m)) % 4) + 1]]
Laws == {l \in [img : Images, psf : {p \in Psfs : Sharp(p)}, kern : {Even(k) : k \in Kernels}] : TRUE}

Init == inp \in ([law : Laws] \cup [plan : Plans]) /\ out = <<>>
IsPlan == "plan" \in DOMAIN inp
Next == /\ out = <<>> /\ out' = (IF IsPlan THEN <<Program(inp.plan)>> ELSE <<"done">>)
        /\ UNCHANGED inp
LawsHold == (out # <<>> /\ ~IsPlan) => Law(inp.law)
SizeEnough == (out # <<>> /\ IsPlan) => out[1].dim >= inp.plan.img
Emit == ~IsPlan \/ PrintT(ToJson([inp |-> inp.plan, out |-> out'[1]]))
===============================================================================
