------------------------------- MODULE Render -------------------------------
(* What a mixture predicts for the pixels of an observation, and what follows *)
(* from that prediction: image, residuals, likelihood, signal to noise.       *)
(* Positions, exponents and the cutoff are exact; the exponential and the     *)
(* square root are terms.                                                     *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dims,      \* set of <<rows, cols>>
          Jacs,      \* set of <<row0, col0, dvdrow, dvdcol, dudrow, dudcol>>
          Mixes,     \* set of sequences of <<p, row, col, irr, irc, icc>>
          Wts, Imgs, \* patterns, used cyclically
          Fast       \* which of the exponentials are explored

VARIABLES inp, out
vars == <<inp, out>>

Cases == [dims : Dims, jac : Jacs, mix : Mixes, wt : Wts, img : Imgs,
          ignore : BOOLEAN]

Det(c) == RSub(RMul(c[4], c[6]), RSq(c[5]))
JDet(j) == RSub(RMul(j[3], j[6]), RMul(j[4], j[5]))
Area(j) == RAbs(JDet(j))
N(d) == d[1] * d[2]
PRow(d, k) == (k - 1) \div d[2]
PCol(d, k) == (k - 1) % d[2]
At(pat, k) == pat[((k - 1) % Len(pat)) + 1]

V(j, d, k) == RAdd(RMul(j[3], RSub(RI(PRow(d, k)), j[1])),
                   RMul(j[4], RSub(RI(PCol(d, k)), j[2])))
U(j, d, k) == RAdd(RMul(j[5], RSub(RI(PRow(d, k)), j[1])),
                   RMul(j[6], RSub(RI(PCol(d, k)), j[2])))

Chi2(c, v, u) ==
  LET dv == RSub(v, c[2])
      du == RSub(u, c[3])
  IN RDiv(RSum(<<RMul(c[6], RSq(dv)), RMul(c[4], RSq(du)),
                 RMul(RI(-2), RMul(c[5], RMul(dv, du)))>>), Det(c))

Cutoff == RI(25)
Peak(c, j) == TDiv(RMul(c[1], Area(j)), TMul(RI(2), TMul(TPi, TSqrt(Det(c)))))

\* exponents of every pixel and component
Chi(i) == [k \in 1..N(i.dims) |->
             LET v == V(i.jac, i.dims, k)
                 u == U(i.jac, i.dims, k)
             IN [m \in 1..Len(i.mix) |-> Chi2(i.mix[m], v, u)]]

Used(i, k) == At(i.wt, k) > 0 \/ ~i.ignore
UsedPix(i) == SelectSeq([k \in 1..N(i.dims) |-> k], LAMBDA k: Used(i, k))
W(i, k) == RMax(RI(At(i.wt, k)), RZero)
D(i, k) == RI(At(i.img, k))
\* the fast prediction of pixel k is term number k
M(k) == <<"ref", k>>

AnyUsed(i) == \E k \in 1..N(i.dims): At(i.wt, k) > 0

Answer(i) ==
  LET chi == Chi(i)
      used == UsedPix(i)
      n == Len(used)
  IN [chi |-> chi,
      peak |-> [m \in 1..Len(i.mix) |-> Peak(i.mix[m], i.jac)],
      inside |-> [k \in 1..N(i.dims) |-> [m \in 1..Len(i.mix) |->
                    RSign(RSub(Cutoff, chi[k][m]))]],
      area |-> Area(i.jac),
      used |-> used,
      npix |-> n,
      fdiff |-> [x \in 1..n |-> TMul(TSub(M(used[x]), D(i, used[x])),
                                     TSqrt(W(i, used[x])))],
      loglike |-> TMul(Q(-1, 2), TSum([x \in 1..n |->
                     TMul(W(i, used[x]), TPow(TSub(M(used[x]), D(i, used[x])), RI(2)))])),
      s2n_numer |-> TSum([x \in 1..n |-> TMul(W(i, used[x]), TMul(M(used[x]), D(i, used[x])))]),
      s2n_denom |-> TSum([x \in 1..n |-> TMul(W(i, used[x]), TPow(M(used[x]), RI(2)))])]

Init == inp \in {i \in Cases : AnyUsed(i)} /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp

Done == out # <<>>
(* each positive-weight pixel is used exactly once *)
OnceEach == Done =>
   /\ \A k \in 1..N(inp.dims): At(inp.wt, k) > 0 =>
        Cardinality({x \in 1..out[1].npix : out[1].used[x] = k}) = 1
   /\ inp.ignore => \A x \in 1..out[1].npix: At(inp.wt, out[1].used[x]) > 0
ChiPositive == Done => \A k \in 1..N(inp.dims): \A m \in 1..Len(inp.mix):
   RSign(out[1].chi[k][m]) >= 0
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
