------------------------------ MODULE FitLayout ------------------------------
(* What a model fit is made of.  One vector of parameters stands for a profile *)
(* per band (shared structure, own flux); each epoch of a band is compared     *)
(* with that profile convolved by the epoch's own psf.  The residuals are the  *)
(* prior terms and then one entry per used pixel, epoch by epoch, band by      *)
(* band.                                                                       *)
EXTENDS ProfileLib, JointLib, FiniteSets, TLC, Json

CONSTANTS Models,     \* profiles fitted
          Layouts,    \* set of sequences (bands) of sequences (epochs) of
                      \*   [dims, wt (cyclic), ignore, psf (sequence of components)]
          Pts,        \* sequence of [cen, g, T, lr, fd, fl]
          Priors,     \* set of <<>> or <<cen, ba, rot>>
          Pool1,      \* of priors on one parameter
          NG          \* numbers of coelliptical gaussians

VARIABLES inp, out
vars == <<inp, out>>

\* a coelliptical fit is of one band
Cases == {c \in [model : Models, lay : Layouts, prior : Priors, ng : NG] :
            /\ c.model = "coellip" => Len(c.lay) = 1
            /\ c.model # "coellip" => c.ng = CHOOSE k \in NG : TRUE}

NB(i) == Len(i.lay)
Kind(m) == IF m \in Simple THEN "simple" ELSE m
Joint(i) == [kind |-> Kind(i.model), n |-> IF i.model = "coellip" THEN i.ng ELSE NB(i),
             cen |-> i.prior[1], ba |-> i.prior[2], rot |-> i.prior[3]]
HasPrior(i) == i.prior # <<>>
PGroups(i) == IF HasPrior(i) THEN GroupsIn(Pool1, Joint(i)) ELSE <<>>

(* ---- parameters ---- *)
NShared(m) == CASE m \in Simple -> 5 [] m = "bdf" -> 6 [] m = "bd" -> 7 [] OTHER -> 0
NumPars(i) == IF i.model = "coellip" THEN 4 + 2 * i.ng ELSE NShared(i.model) + NB(i)
Structure(i, p) ==
  LET head == <<p.cen[1], p.cen[2], p.g[1], p.g[2]>>
  IN CASE i.model \in Simple -> head \o <<p.T>>
       [] i.model = "bdf" -> head \o <<p.T, p.fd>>
       [] i.model = "bd" -> head \o <<p.T, p.lr, p.fd>>
       [] OTHER -> head \o [k \in 1..i.ng |-> RMul(RI(k), p.T)]
Full(i, p) == Structure(i, p) \o [k \in 1..(IF i.model = "coellip" THEN i.ng ELSE NB(i)) |-> p.fl[k]]
\* which entries of the vector band b is made from
BandAt(i, b) == IF i.model = "coellip" THEN [k \in 1..NumPars(i) |-> k]
                ELSE [k \in 1..NShared(i.model) |-> k] \o <<NShared(i.model) + b>>
BandPars(i, p, b) == [k \in 1..Len(BandAt(i, b)) |-> Full(i, p)[BandAt(i, b)[k]]]

(* ---- residuals ---- *)
NPix(e) == e.dims[1] * e.dims[2]
Used(e, k) == ~e.ignore \/ e.wt[((k - 1) % Len(e.wt)) + 1] > 0
UsedPix(e) == SelectSeq([k \in 1..NPix(e) |-> k], LAMBDA k : Used(e, k))
RECURSIVE Cat(_, _)
Cat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Cat(s, k + 1)
PriorEntries(i) ==
  LET gs == PGroups(i)
      of(k) == IF gs[k].name = "cen" THEN <<<<"prior", k, 1>>, <<"prior", k, 2>>>>
               ELSE <<<<"prior", k, 1>>>>
  IN Cat([k \in 1..Len(gs) |-> of(k)], 1)
EpochEntries(i, b, e) ==
  LET u == UsedPix(i.lay[b][e]) IN [k \in 1..Len(u) |-> <<"pix", b, e, u[k]>>]
PixEntries(i) ==
  Cat([b \in 1..NB(i) |-> Cat([e \in 1..Len(i.lay[b]) |-> EpochEntries(i, b, e)], 1)], 1)
Entries(i) == PriorEntries(i) \o PixEntries(i)

(* ---- the model of a band, and of an epoch ---- *)
AsProfile(i, p, b) ==
  [model |-> i.model, g |-> p.g, fracdev |-> p.fd, lrat |-> p.lr,
   base |-> <<p.cen[1], p.cen[2], p.T, p.fl[b]>>,
   coell |-> <<[k \in 1..i.ng |-> RMul(RI(k), p.T)], [k \in 1..i.ng |-> p.fl[k]]>>]
\* the convolution of part k, <<"ref", 2k-1>> of flux and <<"ref", 2k>> of size, at
\* centre <<p, p>> with ellipticity <<"e", 1>>, <<"e", 2>>, and one component of a psf
PsfFlux(ps) == RSum([k \in 1..Len(ps) |-> ps[k][1]])
PsfCen(ps, d) == RDiv(RSum([k \in 1..Len(ps) |-> RMul(ps[k][1], ps[k][d])]), PsfFlux(ps))
Ref(k) == <<"ref", k>>
Half(x) == TMul(Q(1, 2), x)
Plain(k, cov) ==
  \* references 1-4: centre and ellipticity
  <<Ref(2 * k + 3), Ref(1), Ref(2),
    TAdd(Half(TMul(Ref(2 * k + 4), TSub(ROne, Ref(3)))), cov[1]),
    TAdd(Half(TMul(Ref(2 * k + 4), Ref(4))), cov[2]),
    TAdd(Half(TMul(Ref(2 * k + 4), TAdd(ROne, Ref(3)))), cov[3])>>
Convolved(k, ps, c) ==
  LET x == Plain(k, <<ps[c][4], ps[c][5], ps[c][6]>>)
  IN <<TMul(x[1], RDiv(ps[c][1], PsfFlux(ps))),
       TAdd(x[2], RSub(ps[c][2], PsfCen(ps, 2))), TAdd(x[3], RSub(ps[c][3], PsfCen(ps, 3))),
       x[4], x[5], x[6]>>
NParts(i) == IF i.model = "coellip" THEN i.ng ELSE NGauss[i.model]
EpochModel(i, ps) ==
  Cat([k \in 1..NParts(i) |->
        IF ps = <<>> THEN <<Plain(k, <<RZero, RZero, RZero>>)>>
        ELSE [c \in 1..Len(ps) |-> Convolved(k, ps, c)]], 1)

(* ---- statistics, over d (data), m (model), w (weight) of all the used pixels ---- *)
V(s) == <<"var", s>>
Tot(x) == <<"total", x>>
LogLike == TMul(Q(-1, 2), Tot(TMul(V("w"), TMul(TSub(V("m"), V("d")), TSub(V("m"), V("d"))))))
Numer == Tot(TMul(V("w"), TMul(V("m"), V("d"))))
Denom == Tot(TMul(V("w"), TMul(V("m"), V("m"))))
Stats(i) ==
  LET npix == Len(PixEntries(i))
      dof == npix - NumPars(i)
      lnp == TAdd(LogLike, V("prior"))
  IN [npix |-> npix, dof |-> dof, lnprob |-> lnp, numer |-> Numer, denom |-> Denom,
      s2n |-> TDiv(Numer, TSqrt(Denom)),
      chi2per |-> IF dof = 0 THEN TNaN ELSE TDiv(TMul(RI(-2), lnp), RI(dof))]

(* ---- at a point ---- *)
Disk(g) == RLt(RAdd(RSq(g[1]), RSq(g[2])), ROne)
ArgsOf(g, full) == [k \in 1..Len(g.at) |-> full[g.at[k]]]
PriorOk(i, full) == \A k \in 1..Len(PGroups(i)) : In(PGroups(i)[k], ArgsOf(PGroups(i)[k], full))
PointOf(i, p) ==
  LET full == Full(i, p)
      gs == PGroups(i)
      pok == PriorOk(i, full)
      ref(b) == AsProfile(i, p, b)
  IN [full |-> full, shape |-> Disk(p.g), prior |-> pok,
      band |-> [b \in 1..NB(i) |-> BandPars(i, p, b)],
      lnp |-> IF pok /\ gs # <<>> THEN TSum([k \in 1..Len(gs) |-> Lnp(gs[k], ArgsOf(gs[k], full))])
              ELSE RZero,
      fdiff |-> IF pok THEN Cat([k \in 1..Len(gs) |-> Fdiff(gs[k], ArgsOf(gs[k], full))], 1) ELSE <<>>,
      refs |-> IF i.model \in {"bd", "bdf"} THEN <<MixMean(ref(1))>> ELSE <<>>,
      cen |-> p.cen, e |-> IF Disk(p.g) THEN <<E(p.g, 1), E(p.g, 2)>> ELSE <<>>,
      parts |-> [b \in 1..NB(i) |-> Parts(ref(b))]]

Answer(i) ==
  [npars |-> NumPars(i), groups |-> PGroups(i), entries |-> Entries(i),
   nprior |-> Len(PriorEntries(i)), stats |-> Stats(i), joint |-> Kind(i.model),
   jn |-> IF i.model = "coellip" THEN i.ng ELSE NB(i),
   at |-> [g |-> <<3, 4>>, T |-> 5,
           flux |-> IF i.model = "coellip" THEN <<>>
                    ELSE [b \in 1..NB(i) |-> NShared(i.model) + b]],
   models |-> [b \in 1..NB(i) |-> [e \in 1..Len(i.lay[b]) |-> EpochModel(i, i.lay[b][e].psf)]],
   pts |-> [k \in 1..Len(Pts) |-> PointOf(i, Pts[k])]]

Init == inp \in Cases /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp
Done == out # <<>>

(* ---- properties of the layout ---- *)
\* the prior terms come first, one per parameter but one for the whole shape
PriorFirst == Done =>
  /\ \A k \in 1..Len(out[1].entries) : (out[1].entries[k][1] = "prior") <=> (k <= out[1].nprior)
  /\ HasPrior(inp) => out[1].nprior = out[1].npars - 1
\* every used pixel has one entry, and they are in order
OncePerPixel == Done => \A b \in 1..NB(inp) : \A e \in 1..Len(inp.lay[b]) :
  \A k \in 1..NPix(inp.lay[b][e]) :
    Cardinality({x \in 1..Len(out[1].entries) : out[1].entries[x] = <<"pix", b, e, k>>})
      = IF Used(inp.lay[b][e], k) THEN 1 ELSE 0
Less(x, y) == \/ x[2] < y[2]
              \/ x[2] = y[2] /\ x[3] < y[3]
              \/ x[2] = y[2] /\ x[3] = y[3] /\ x[4] < y[4]
InOrder == Done => \A k \in (out[1].nprior + 1)..(Len(out[1].entries) - 1) :
  Less(out[1].entries[k], out[1].entries[k + 1])
\* bands differ in their flux alone
SharedStructure == (Done /\ inp.model # "coellip") => \A k \in 1..Len(Pts) : \A b \in 1..NB(inp) :
  LET pt == out[1].pts[k]
      s == NShared(inp.model)
  IN /\ SubSeq(pt.band[b], 1, s) = SubSeq(pt.full, 1, s)
     /\ pt.band[b][s + 1] = pt.full[s + b]
\* with no fewer terms than pixels
Counts == Done => /\ Len(out[1].entries) = out[1].nprior + out[1].stats.npix
                  /\ \A k \in 1..Len(Pts) : out[1].pts[k].prior =>
                        Len(out[1].pts[k].fdiff) = out[1].nprior
                  /\ \A k \in 1..Len(Pts) : Len(out[1].pts[k].full) = out[1].npars
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
