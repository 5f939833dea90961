------------------------------ MODULE Recover --------------------------------
(* What comes back from data without noise.  A scene (a mixture or profile     *)
(* seen through a psf in some bands and epochs) goes through a pipeline:       *)
(* metacalibration or not, finding out about the psf in some way or not, and   *)
(* one measurement.  Every measurement sees the source either before or after  *)
(* the psf, and what it has to report follows from the truth alone.            *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Scenes,    \* set of records, see Init
          Step,      \* of the metacal shears, a rational
          MaxWeight  \* covariances (integers) of round weight functions

VARIABLES sc,        \* the scene
          data,      \* what the data are by now
          trail,     \* how they came about
          res        \* what is reported
vars == <<sc, data, trail, res>>

\* covariances are <<vv, vu, uu>>, rationals; components [f, s, at]
Types == {"noshear", "1p", "1m", "2p", "2m"}
ShearOf(t) == CASE t = "noshear" -> <<RZero, RZero>>
                [] t = "1p" -> <<Step, RZero>>
                [] t = "1m" -> <<RNeg(Step), RZero>>
                [] t = "2p" -> <<RZero, Step>>
                [] t = "2m" -> <<RZero, RNeg(Step)>>
\* on (v, u), times the square root of 1 - g^2
Matrix(g) == <<RSub(ROne, g[1]), g[2], g[2], RAdd(ROne, g[1])>>
Norm(g) == RSub(ROne, RAdd(RSq(g[1]), RSq(g[2])))
MMul(p, q) == <<RAdd(RMul(p[1], q[1]), RMul(p[2], q[3])), RAdd(RMul(p[1], q[2]), RMul(p[2], q[4])),
                RAdd(RMul(p[3], q[1]), RMul(p[4], q[3])), RAdd(RMul(p[3], q[2]), RMul(p[4], q[4]))>>
Full(s) == <<s[1], s[2], s[2], s[3]>>
Tr4(m) == <<m[1], m[3], m[2], m[4]>>
\* times Norm(g)
ShearCov(g, s) == LET m == MMul(MMul(Matrix(g), Full(s)), Tr4(Matrix(g))) IN <<m[1], m[2], m[4]>>
\* times the square root of Norm(g)
ShearAt(g, x) == LET m == Matrix(g) IN <<RAdd(RMul(m[1], x[1]), RMul(m[2], x[2])), RAdd(RMul(m[3], x[1]), RMul(m[4], x[2]))>>
Det(s) == RSub(RMul(s[1], s[3]), RSq(s[2]))
CAdd(s, p) == <<RAdd(s[1], p[1]), RAdd(s[2], p[2]), RAdd(s[3], p[3])>>
Trace(s) == RAdd(s[1], s[3])

\* a round weight w: the product of two gaussians has (s^-1 + w^-1)^-1 = w (s + w)^-1 s,
\* its height goes with det w / det(s + w)
Weigh(w, s) ==
  LET t == CAdd(s, <<w, RZero, w>>)
      d == Det(t)
      \* adj(t) s: w / det(t) short of it
      m == MMul(<<t[3], RNeg(t[2]), RNeg(t[2]), t[1]>>, Full(s))
  IN [num |-> <<m[1], m[2], m[4]>>, mul |-> RDiv(w, d), height |-> <<RSq(w), d>>]

Bands(x) == Len(x.epochs)
Single(x) == Len(x.epochs) = 1 /\ x.epochs[1] = 1
Star(x) == x.profile = "star"
Mixture(x) == x.profile = "gauss" /\ x.draw = "pixels"
Round(x) == \A i \in 1..Len(x.obj) : x.obj[i].at = <<RZero, RZero>>
\* one shape, one centre
Coellip(x) == /\ Mixture(x) /\ Round(x)
              /\ \A i \in 1..Len(x.obj) : \A k \in 1..3 :
                   RMul(x.obj[i].s[k], Trace(x.obj[1].s)) = RMul(x.obj[1].s[k], Trace(x.obj[i].s))

Init == /\ sc \in Scenes
        /\ data = [shear |-> <<RZero, RZero>>, psf |-> IF sc.psf = <<>> THEN "none" ELSE "own", known |-> FALSE]
        /\ trail = <<>>
        /\ res = <<>>

\* a sheared image with a round gaussian psf
Metacal(t, how) ==
  /\ res = <<>> /\ trail = <<>> /\ data.psf = "own" /\ sc.smooth /\ ~Star(sc)
  /\ data' = [data EXCEPT !.shear = ShearOf(t), !.psf = "target"]
  /\ trail' = Append(trail, <<"metacal", t, how>>)
  /\ UNCHANGED <<sc, res>>

NPsf == IF data.psf = "target" THEN 1 ELSE Len(sc.psf)
\* ways to find the mixture of the psf
Finds(p) == CASE p = "given" -> data.psf = "own"
              [] p = "gauss" -> NPsf = 1
              [] p = "admom" -> NPsf = 1
              [] p = "coellip" -> TRUE
              [] p = "em" -> TRUE
Psf(p) == /\ res = <<>> /\ data.psf # "none" /\ ~data.known /\ Finds(p)
          /\ data' = [data EXCEPT !.known = TRUE]
          /\ trail' = Append(trail, <<"psf", p>>)
          /\ UNCHANGED <<sc, res>>

\* the source before its psf
Bare == [i \in 1..Len(sc.obj) |-> [f |-> sc.obj[i].f, s |-> ShearCov(data.shear, sc.obj[i].s),
                                   at |-> ShearAt(data.shear, sc.obj[i].at), div |-> Norm(data.shear), psf |-> 0]]
\* and after: component i of the source with component j of the psf; the target is not known here
Seen == IF data.psf = "none" THEN Bare
        ELSE IF data.psf = "target" THEN [i \in 1..Len(sc.obj) |-> [Bare[i] EXCEPT !.psf = 1]]
        ELSE [k \in 1..(Len(sc.obj) * Len(sc.psf)) |->
               LET i == ((k - 1) \div Len(sc.psf)) + 1
                   j == ((k - 1) % Len(sc.psf)) + 1
               IN [f |-> RMul(sc.obj[i].f, sc.psf[j].f), s |-> CAdd(sc.obj[i].s, sc.psf[j].s), at |-> sc.obj[i].at,
                   div |-> ROne, psf |-> 0]]

\* mixtures by EM, with or without parts of them held
EMs == {"em", "emcen", "emcov", "emflux"}
Held(m) == CASE m = "emcen" -> {"at"} [] m = "emcov" -> {"s"} [] m = "emflux" -> {"at", "s"} [] OTHER -> {}
\* with the psf known (or none there) it is taken out
TakenOut == data.known \/ data.psf = "none"
Can(m) == CASE m = "lm" -> TakenOut /\ ~Star(sc) /\ sc.draw = "pixels" /\ Len(sc.obj) = 1
            [] m = "coellip" -> TakenOut /\ Coellip(sc) /\ Bands(sc) = 1
            [] m \in EMs -> Mixture(sc) /\ Single(sc) /\ (TakenOut \/ (data.psf # "none" /\ NPsf = 1))
            [] m = "admom" -> Mixture(sc) /\ Single(sc) /\ Len(sc.obj) = 1 /\ (data.psf # "own" \/ NPsf = 1) /\ sc.smooth
            [] m = "gaussmom" -> Mixture(sc) /\ Single(sc) /\ Round(sc) /\ sc.smooth
            [] m = "pgauss" -> Mixture(sc) /\ Single(sc) /\ Round(sc) /\ sc.smooth
            [] m = "template" -> Star(sc) /\ data.known /\ Bands(sc) = 1
            [] m = "galsim" -> sc.draw = "galsim" /\ trail = <<>>
\* what is before the psf is before the pixel too: covariance of a pixel, whose area is eight units
Pixel == <<Q(-2, 3), RZero, Q(-2, 3)>>
NoPixel(c) == [i \in 1..Len(c) |-> [c[i] EXCEPT !.s = CAdd(c[i].s, Pixel)]]
Out(m) == IF m = "pgauss" /\ data.psf = "none" THEN NoPixel(Bare)
          ELSE IF m \in {"lm", "coellip", "pgauss", "galsim"} THEN Bare
          ELSE IF m \in EMs /\ TakenOut THEN Bare
          ELSE Seen
Weighted(m, w) == m \in {"gaussmom", "pgauss"} /\ data.shear = <<RZero, RZero>> /\ data.psf # "target"
\* the adaptive weight is the source's own gaussian, with height one: what it sees of the flux
Part(m) == IF m = "admom" THEN Q(1, 2) ELSE ROne
Report(m, w) == [measure |-> m, held |-> Held(m), comps |-> Out(m), w |-> w, part |-> Part(m),
                 weighed |-> IF Weighted(m, w) THEN [i \in 1..Len(Out(m)) |-> Weigh(w, Out(m)[i].s)] ELSE <<>>]

Measure(m, w) == /\ res = <<>> /\ Can(m)
                 /\ trail' = Append(trail, <<"measure", m>>)
                 /\ res' = <<Report(m, w)>>
                 /\ UNCHANGED <<sc, data>>

Measures == {"lm", "coellip", "admom", "template", "galsim"} \cup EMs
Moments == {"gaussmom", "pgauss"}
Next == \/ \E t \in Types, how \in {"gauss", "fitgauss"} : Metacal(t, how)
        \/ \E p \in {"given", "gauss", "admom", "coellip", "em"} : Psf(p)
        \/ \E m \in Measures : Measure(m, RZero)
        \/ \E m \in Moments, w \in MaxWeight : Measure(m, w)

Done == res # <<>>
\* what is measured before the psf does not depend on the psf or on how it was found
BareIgnoresPsf == (Done /\ ~(res[1].measure = "pgauss" /\ data.psf = "none") /\ res[1].measure \in {"lm", "coellip", "pgauss", "galsim"}) =>
  /\ Len(res[1].comps) = Len(sc.obj)
  /\ \A i \in 1..Len(sc.obj) : /\ res[1].comps[i].f = sc.obj[i].f /\ res[1].comps[i].psf = 0
                               /\ res[1].comps[i].s = ShearCov(data.shear, sc.obj[i].s)
\* sizes add, and nothing of the flux is lost
SizesAdd == (Done /\ data.psf = "own" /\ res[1].measure = "admom") =>
  Trace(res[1].comps[1].s) = RAdd(Trace(sc.obj[1].s), Trace(sc.psf[1].s))
RECURSIVE Sum(_, _)
Sum(c, i) == IF i > Len(c) THEN RZero ELSE RAdd(c[i].f, Sum(c, i + 1))
FluxKept == (Done /\ ~Star(sc)) => Sum(res[1].comps, 1) = ROne
PartSeen == (Done /\ res[1].measure = "admom" /\ data.psf # "target") => LET s == res[1].comps[1].s IN
  RMul(RSq(res[1].part), Det(<<RAdd(s[1], s[1]), RAdd(s[2], s[2]), RAdd(s[3], s[3])>>)) = Det(s)
\* opposite shears undo each other, areas stay, round weights only make smaller
Undone == LET g == data.shear IN /\ MMul(Matrix(g), Matrix(<<RNeg(g[1]), RNeg(g[2])>>)) = <<Norm(g), RZero, RZero, Norm(g)>>
                                 /\ RSub(RMul(Matrix(g)[1], Matrix(g)[4]), RMul(Matrix(g)[2], Matrix(g)[3])) = Norm(g)
Smaller == (Done /\ data.psf # "none") => \A i \in 1..Len(res[1].weighed) :
  LET x == res[1].weighed[i] IN /\ RLt(RMul(x.mul, Trace(x.num)), Trace(res[1].comps[i].s))
                                /\ RLt(x.height[1], x.height[2])
                                /\ RSign(Det(x.num)) > 0
Emit == res' = <<>> \/ PrintT(ToJson([sc |-> sc, trail |-> trail', data |-> data', res |-> res'[1]]))
===============================================================================
