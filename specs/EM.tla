--------------------------------- MODULE EM ---------------------------------
(* One iteration of expectation maximisation on an image, for every mode:     *)
(* which pixels enter, what each contributes, what the new mixture is, which  *)
(* of its entries may not change, and when the iteration cannot be made.      *)
(* Positions, exponents, cutoff and sky are exact; "ref" k is the value of    *)
(* convolved component m in pixel x, k = (x - 1) * NC + m.                    *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dims, Jacs,
          Mixes,     \* guesses: sequences of <<p, row, col, irr, irc, icc>>
          Psfs,      \* sequences of the same; <<>> is "no psf"
          Imgs,      \* positive pixel values, used cyclically
          Wts,       \* weights, used cyclically
          Skies,     \* <<>> (to be determined) or a rational
          Modes

VARIABLES inp, out
vars == <<inp, out>>

Cases == [dims : Dims, jac : Jacs, mix : Mixes, psf : Psfs, img : Imgs,
          wt : Wts, sky : Skies, mode : Modes, ignore : BOOLEAN]

N(d) == d[1] * d[2]
PRow(d, k) == (k - 1) \div d[2]
PCol(d, k) == (k - 1) % d[2]
At(pat, k) == pat[((k - 1) % Len(pat)) + 1]
V(j, d, k) == RAdd(RMul(j[3], RSub(RI(PRow(d, k)), j[1])),
                   RMul(j[4], RSub(RI(PCol(d, k)), j[2])))
U(j, d, k) == RAdd(RMul(j[5], RSub(RI(PRow(d, k)), j[1])),
                   RMul(j[6], RSub(RI(PCol(d, k)), j[2])))
Area(j) == RAbs(RSub(RMul(j[3], j[6]), RMul(j[4], j[5])))
Det(c) == RSub(RMul(c[4], c[6]), RSq(c[5]))

\* sums over pixels and components with at most four-digit terms
PSum(psf) == RSum([m \in 1..Len(psf) |-> psf[m][1]])
PCen(psf, f) == RDiv(RSum([m \in 1..Len(psf) |-> RMul(psf[m][1], psf[m][f])]), PSum(psf))
\* second moments of the psf about its centre
PMom(psf, f, a, b) ==
  RDiv(RSum([m \in 1..Len(psf) |->
          RMul(psf[m][1], RAdd(psf[m][f], RMul(RSub(psf[m][a], PCen(psf, a)),
                                               RSub(psf[m][b], PCen(psf, b)))))]),
       PSum(psf))

NPsf(i) == IF i.psf = <<>> THEN 1 ELSE Len(i.psf)
NC(i) == Len(i.mix) * NPsf(i)
Conv(i) ==
  [c \in 1..NC(i) |->
     LET o == i.mix[((c - 1) \div NPsf(i)) + 1]
     IN IF i.psf = <<>> THEN o
        ELSE LET s == i.psf[((c - 1) % NPsf(i)) + 1]
             IN <<RMul(o[1], RDiv(s[1], PSum(i.psf))),
                  RAdd(o[2], RSub(s[2], PCen(i.psf, 2))),
                  RAdd(o[3], RSub(s[3], PCen(i.psf, 3))),
                  RAdd(o[4], s[4]), RAdd(o[5], s[5]), RAdd(o[6], s[6])>>]

Chi2(c, v, u) ==
  LET dv == RSub(v, c[2])
      du == RSub(u, c[3])
  IN RDiv(RSum(<<RMul(c[6], RSq(dv)), RMul(c[4], RSq(du)),
                 RMul(RI(-2), RMul(c[5], RMul(dv, du)))>>), Det(c))
Peak(c, j) == TDiv(RMul(c[1], Area(j)), TMul(RI(2), TMul(TPi, TSqrt(Det(c)))))

\* sky: when none is given the image is raised to be positive everywhere
RECURSIVE SeqMin(_), SeqMax(_)
SeqMin(s) == IF Len(s) = 1 THEN s[1] ELSE LET r == SeqMin(Tail(s)) IN IF s[1] < r THEN s[1] ELSE r
SeqMax(s) == IF Len(s) = 1 THEN s[1] ELSE LET r == SeqMax(Tail(s)) IN IF s[1] > r THEN s[1] ELSE r
Image(i) == [k \in 1..N(i.dims) |-> At(i.img, k)]
SkyOf(i) == IF i.sky # <<>> THEN i.sky
            ELSE LET im == Image(i)
                 IN RSub(Q(SeqMax(im) - SeqMin(im), 1000), RI(SeqMin(im)))
Data(i, k) == IF i.sky # <<>> THEN RI(At(i.img, k)) ELSE RAdd(RI(At(i.img, k)), SkyOf(i))

\* zero weight pixels are left out, or filled with the model when kept
Kept(i, k) == At(i.wt, k) > 0 \/ ~i.ignore
Filled(i, k) == At(i.wt, k) <= 0
Pixels(i) == SelectSeq([k \in 1..N(i.dims) |-> k], LAMBDA k: Kept(i, k))

G(i, k, m) == <<"ref", (k - 1) * NC(i) + m>>
\* value of object o in pixel k
Obj(i, k, o) == TSum([s \in 1..NPsf(i) |-> G(i, k, (o - 1) * NPsf(i) + s)])
Tot(i, k) == TAdd(TSum([c \in 1..NC(i) |-> G(i, k, c)]), SkyOf(i))
Val(i, k) == IF Filled(i, k) THEN Tot(i, k) ELSE Data(i, k)
Fac(i, k) == TDiv(Val(i, k), Tot(i, k))

NewP(i, pix, o) == TSum([x \in 1..Len(pix) |-> TMul(Obj(i, pix[x], o), Fac(i, pix[x]))])
NewCen(i, pix, o, f(_, _, _)) ==
  TDiv(TSum([x \in 1..Len(pix) |->
         TMul(f(i.jac, i.dims, pix[x]), TMul(Obj(i, pix[x], o), Fac(i, pix[x])))]),
       NewP(i, pix, o))
\* mean of the squared offsets from the current centre, without the psf's part
NewCov(i, pix, conv, o, fa(_, _, _), a, fb(_, _, _), b, f) ==
  TSub(TDiv(TSum([x \in 1..Len(pix) |->
         TMul(Fac(i, pix[x]),
              TSum([s \in 1..NPsf(i) |->
                 LET c == (o - 1) * NPsf(i) + s
                 IN TMul(RMul(RSub(fa(i.jac, i.dims, pix[x]), conv[c][a]),
                              RSub(fb(i.jac, i.dims, pix[x]), conv[c][b])),
                         G(i, pix[x], c))]))]),
       NewP(i, pix, o)),
       IF i.psf = <<>> THEN RZero ELSE PMom(i.psf, f, a, b))

FixCen(m) == m \in {"fixcen", "fluxonly"}
FixCov(m) == m \in {"fixcov", "fluxonly"}

Usable(i) == \A k \in 1..NC(i): RSign(Det(Conv(i)[k])) > 0

Step(i) ==
  LET pix == Pixels(i)
      conv == Conv(i)
      sky == SkyOf(i)
      chi == [k \in 1..N(i.dims) |->
                LET v == V(i.jac, i.dims, k)
                    u == U(i.jac, i.dims, k)
                IN [m \in 1..NC(i) |-> Chi2(conv[m], v, u)]]
      ins == [k \in 1..N(i.dims) |-> [m \in 1..NC(i) |->
                RSign(RSub(RI(25), chi[k][m]))]]
      \* somewhere nothing is predicted, or a component is seen nowhere
      void == sky = RZero /\ \E x \in 1..Len(pix): \A m \in 1..NC(i): ins[pix[x]][m] < 0
      lost == ~(i.mode = "fluxonly") /\
              \E o \in 1..Len(i.mix): \A x \in 1..Len(pix): \A s \in 1..NPsf(i):
                 ins[pix[x]][(o - 1) * NPsf(i) + s] < 0
  IN [ok |-> ~(void \/ lost), void |-> void, lost |-> lost, sky |-> sky, chi |-> chi, inside |-> ins,
      peak |-> [m \in 1..NC(i) |-> Peak(conv[m], i.jac)],
      npix |-> Len(pix),
      fill |-> [x \in 1..Len(pix) |-> Filled(i, pix[x])],
      p |-> [o \in 1..Len(i.mix) |-> NewP(i, pix, o)],
      cen |-> [o \in 1..Len(i.mix) |->
                 IF FixCen(i.mode) THEN <<i.mix[o][2], i.mix[o][3]>>
                 ELSE <<NewCen(i, pix, o, V), NewCen(i, pix, o, U)>>],
      cov |-> [o \in 1..Len(i.mix) |->
                 IF FixCov(i.mode) THEN <<i.mix[o][4], i.mix[o][5], i.mix[o][6]>>
                 ELSE <<NewCov(i, pix, conv, o, V, 2, V, 2, 4),
                        NewCov(i, pix, conv, o, V, 2, U, 3, 5),
                        NewCov(i, pix, conv, o, U, 3, U, 3, 6)>>],
      newsky |-> TDiv(TMul(sky, TSum([x \in 1..Len(pix) |-> Fac(i, pix[x])])), RI(Len(pix))),
      data |-> [x \in 1..Len(pix) |-> Val(i, pix[x])]]

Refused(i) == [ok |-> FALSE, void |-> FALSE, lost |-> FALSE, sky |-> SkyOf(i)]

Wanted(i) ==
   /\ \E k \in 1..N(i.dims): At(i.wt, k) > 0
   \* a determined sky goes with an image that is used completely
   /\ (i.sky = <<>>) => /\ (\A k \in 1..N(i.dims): At(i.wt, k) > 0)
                        /\ \E k \in 1..N(i.dims): At(i.img, k) # At(i.img, 1)
   \* with a given sky the image already has it and is positive
   /\ (i.sky # <<>>) => \A k \in 1..N(i.dims): At(i.img, k) > 0

Init == inp \in {i \in Cases : Wanted(i)} /\ out = <<>>
Next == out = <<>> /\ out' = <<IF Usable(inp) THEN Step(inp) ELSE Refused(inp)>> /\ UNCHANGED inp

Done == out # <<>>
(* restricted modes name what stays *)
Frame == (Done /\ out[1].ok) => \A o \in 1..Len(inp.mix):
   /\ FixCen(inp.mode) => out[1].cen[o] = <<inp.mix[o][2], inp.mix[o][3]>>
   /\ FixCov(inp.mode) => out[1].cov[o] = <<inp.mix[o][4], inp.mix[o][5], inp.mix[o][6]>>
(* the image that is fitted has no negative pixel *)
RaisedPositive == (Done /\ inp.sky = <<>>) =>
   \A k \in 1..N(inp.dims): RSign(Data(inp, k)) > 0
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
