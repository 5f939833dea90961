------------------------------- MODULE GaussAp --------------------------------
(* Fluxes through a gaussian aperture for the rows of a catalogue.  The        *)
(* aperture is centred on the object and is one at its centre.  Every row and  *)
(* band stands for itself: an answer is a function of the parameters of that   *)
(* row, its flux in that band and the aperture only.                           *)
EXTENDS ProfileLib, FiniteSets, TLC, Json

CONSTANTS Catalogues,   \* set of [model, nband, rows, masked, mask, aperture]
          Laws          \* set of [half, e1, e2, s2, flux]

VARIABLES inp, out
vars == <<inp, out>>

NoAttempt == 1
RangeError == 128
SmallestT == Q(1, 10000)

(* a row: [g, T, fracdev, lrat, base (centre), flux (one per band), bad, badband] *)
\* bad names what in the row is not a finite number, "none" when nothing is
Finite(cat, r, b) ==
  CASE r.bad = "none" -> TRUE
    [] r.bad = "flux" -> r.badband # b
    \* a bulge fraction or size ratio is part of a row only for some models
    [] r.bad = "fracdev" -> cat.model \notin {"cm", "bdf"}
    [] r.bad = "ratio" -> cat.model # "cm"
    [] OTHER -> FALSE

Half(T) == RMul(T, Q(1, 2))
\* the aperture: exp(-r^2 / 2 s2), given its width at half height
S2(ap) == TDiv(RSq(ap), TMul(RI(8), TLog(RI(2))))
\* what of a component of size T and ellipticity e the aperture lets through, at
\* the centre of both: sqrt(det W / det(S + W))
Passed(T, e, s2) ==
  LET h == TMul(Q(1, 2), T)
      esq == RAdd(RSq(e[1]), RSq(e[2]))
      w == TAdd(h, s2)
  IN TDiv(s2, TSqrt(TSub(TMul(w, w), TMul(TMul(h, h), esq))))
Profile(cat, r, b) ==
  [model |-> cat.model, g |-> r.g, fracdev |-> r.fracdev, lrat |-> r.lrat,
   base |-> <<r.cen[1], r.cen[2], RMax(r.T, SmallestT), r.flux[b]>>, coell |-> <<<<>>, <<>>>>]
Composite(m) == m \in {"bdf", "cm"}
FluxTerm(cat, r, b) ==
  LET p == Profile(cat, r, b)
      e == <<E(r.g, 1), E(r.g, 2)>>
      parts == Parts(p)
      s2 == S2(cat.aperture)
  IN TSum([k \in 1..Len(parts) |-> TMul(parts[k][1], Passed(parts[k][2], e, s2))])
Refs(cat, r) == IF Composite(cat.model) THEN <<MixMean(Profile(cat, r, 1))>> ELSE <<>>
One(cat, r, use, b) ==
  IF ~use THEN [flag |-> NoAttempt, flux |-> TNaN]
  ELSE IF ~Finite(cat, r, b) \/ ~InDisk(r.g) THEN [flag |-> RangeError, flux |-> TNaN]
  ELSE [flag |-> 0, flux |-> FluxTerm(cat, r, b)]
Row(cat, k) == [refs |-> Refs(cat, cat.rows[k]),
                bands |-> [b \in 1..cat.nband |->
                   One(cat, cat.rows[k], ~cat.masked \/ cat.mask[k], b)]]
\* a mask has a place for every row
Accepts(cat) == ~cat.masked \/ Len(cat.mask) = Len(cat.rows)
Answer(cat) ==
  IF ~Accepts(cat) THEN [ok |-> FALSE, rows |-> <<>>]
  ELSE [ok |-> TRUE, rows |-> [k \in 1..Len(cat.rows) |-> Row(cat, k)]]

(* ---- the laws, exactly, for the square of what passes ---- *)
PassedSq(h, e1, e2, s2) ==
  RDiv(RSq(s2), RSub(RSq(RAdd(h, s2)), RMul(RSq(h), RAdd(RSq(e1), RSq(e2)))))
Det2(m) == RSub(RMul(m[1], m[3]), RSq(m[2]))
Inv2(m) == LET d == Det2(m) IN <<RDiv(m[3], d), RNeg(RDiv(m[2], d)), RDiv(m[1], d)>>
Cov(h, e1, e2) == <<RMul(h, RSub(ROne, e1)), RMul(h, e2), RMul(h, RAdd(ROne, e1))>>
Law(l) ==
  LET c == Cov(l.half, l.e1, l.e2)
      w == <<RDiv(ROne, l.s2), RZero, RDiv(ROne, l.s2)>>
      i == Inv2(c)
      product == Inv2(<<RAdd(i[1], w[1]), i[2], RAdd(i[3], w[3])>>)
      f == PassedSq(l.half, l.e1, l.e2, l.s2)
  IN \* the integral of component times aperture
     /\ f = RDiv(Det2(product), Det2(c))
     \* no more than all of it, and some
     /\ RLt(RZero, f) /\ RLt(f, ROne)
     \* a larger object loses more, a larger aperture less
     /\ RLt(PassedSq(RMul(l.half, RI(2)), l.e1, l.e2, l.s2), f)
     /\ RLt(f, PassedSq(l.half, l.e1, l.e2, RMul(l.s2, RI(2))))
     \* only the ratio of the two sizes matters
     /\ f = PassedSq(RMul(l.half, RI(3)), l.e1, l.e2, RMul(l.s2, RI(3)))
     \* and not the direction of the shape
     /\ f = PassedSq(l.half, RNeg(l.e2), l.e1, l.s2)

Init == inp \in ([law : Laws] \cup [cat : Catalogues]) /\ out = <<>>
IsCat == "cat" \in DOMAIN inp
Next == /\ out = <<>> /\ out' = (IF IsCat THEN <<Answer(inp.cat)>> ELSE <<"done">>)
        /\ UNCHANGED inp
LawsHold == (out # <<>> /\ ~IsCat) => Law(inp.law)
Done == out # <<>> /\ IsCat /\ Accepts(inp.cat)
\* any row alone gives the same, and any band alone
Alone == Done => \A k \in DOMAIN inp.cat.rows :
   LET c == inp.cat
       one == [c EXCEPT !.rows = <<c.rows[k]>>,
                        !.mask = IF c.masked THEN <<c.mask[k]>> ELSE <<>>]
   IN Answer(one).rows[1] = out[1].rows[k]
BandAlone == Done => \A k \in DOMAIN inp.cat.rows, b \in 1..inp.cat.nband :
   LET c == inp.cat
       r == c.rows[k]
       one == [c EXCEPT !.nband = 1, !.masked = FALSE,
                        !.rows = <<[r EXCEPT !.flux = <<r.flux[b]>>,
                          !.badband = IF r.badband = b THEN 1 ELSE 0]>>]
   IN (~c.masked \/ c.mask[k]) => Answer(one).rows[1].bands[1] = out[1].rows[k].bands[b]
FlaggedOrGiven == Done => \A k \in DOMAIN out[1].rows, b \in 1..inp.cat.nband :
   (out[1].rows[k].bands[b].flag # 0) <=> (out[1].rows[k].bands[b].flux = TNaN)
Emit == ~IsCat \/ PrintT(ToJson([inp |-> inp.cat, out |-> out'[1]]))
===============================================================================
