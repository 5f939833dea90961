---------------------------- MODULE GalsimLayout -----------------------------
(* Fits of analytic profiles in Fourier space: every epoch contributes the     *)
(* real parts of all of its modes and then the imaginary parts; a mode of no   *)
(* weight contributes nothing.                                                 *)
EXTENDS JointLib, FiniteSets, TLC, Json

CONSTANTS Models,
          Layouts,    \* set of sequences of sequences of [dims, wt, psf]
          Pts,        \* sequence of [cen, g, r50, nu, beta, fl]
          Priors, Pool1

VARIABLES inp, out
vars == <<inp, out>>
Cases == [model : Models, lay : Layouts, prior : Priors]
Extra(m) == m \in {"spergel", "moffat"}
NB(i) == Len(i.lay)
NShared(m) == IF Extra(m) THEN 6 ELSE 5
NumPars(i) == NShared(i.model) + NB(i)
Kind(m) == IF Extra(m) THEN "spergel" ELSE "galsim"
PGroups(i) == IF i.prior = <<>> THEN <<>>
              ELSE GroupsIn(Pool1, [kind |-> Kind(i.model), n |-> NB(i), cen |-> i.prior[1],
                                    ba |-> i.prior[2], rot |-> i.prior[3]])
Structure(i, p) ==
  <<p.cen[1], p.cen[2], p.g[1], p.g[2], p.r50>> \o
  (CASE i.model = "spergel" -> <<p.nu>> [] i.model = "moffat" -> <<p.beta>> [] OTHER -> <<>>)
Full(i, p) == Structure(i, p) \o [k \in 1..NB(i) |-> p.fl[k]]
BandPars(i, p, b) == Structure(i, p) \o <<p.fl[b]>>

RECURSIVE Cat(_, _)
Cat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Cat(s, k + 1)
NMode(e) == e.dims[1] * e.dims[2]
PriorEntries(i) ==
  Cat([k \in 1..Len(PGroups(i)) |->
        IF PGroups(i)[k].name = "cen" THEN <<<<"prior", k, 1>>, <<"prior", k, 2>>>>
        ELSE <<<<"prior", k, 1>>>>], 1)
EpochEntries(i, b, e) ==
  LET n == NMode(i.lay[b][e])
  IN [k \in 1..n |-> <<"re", b, e, k>>] \o [k \in 1..n |-> <<"im", b, e, k>>]
Entries(i) == PriorEntries(i) \o
  Cat([b \in 1..NB(i) |-> Cat([e \in 1..Len(i.lay[b]) |-> EpochEntries(i, b, e)], 1)], 1)
Weight(e, k) == LET w == e.wt[((k - 1) % Len(e.wt)) + 1] IN IF w > 0 THEN w ELSE 0
Weights(i) == [b \in 1..NB(i) |-> [e \in 1..Len(i.lay[b]) |->
                 [k \in 1..NMode(i.lay[b][e]) |-> Weight(i.lay[b][e], k)]]]

(* ---- profiles which exist ---- *)
Disk(g) == RLt(RAdd(RSq(g[1]), RSq(g[2])), ROne)
Exists(i, p) ==
  /\ Disk(p.g)
  /\ CASE i.model = "spergel" -> RLe(Q(-17, 20), p.nu) /\ RLe(p.nu, RI(4))
       [] i.model = "moffat" -> RLt(Q(11, 10), p.beta)
       [] OTHER -> RLe(Q(1, 10000), p.r50)
ArgsOf(g, full) == [k \in 1..Len(g.at) |-> full[g.at[k]]]
PriorOk(i, full) == \A k \in 1..Len(PGroups(i)) : In(PGroups(i)[k], ArgsOf(PGroups(i)[k], full))
PointOf(i, p) ==
  LET full == Full(i, p)
      gs == PGroups(i)
      pok == PriorOk(i, full)
  IN [full |-> full, exists |-> Exists(i, p), prior |-> pok,
      band |-> [b \in 1..NB(i) |-> BandPars(i, p, b)],
      fdiff |-> IF pok THEN Cat([k \in 1..Len(gs) |-> Fdiff(gs[k], ArgsOf(gs[k], full))], 1) ELSE <<>>]
Answer(i) ==
  [npars |-> NumPars(i), groups |-> PGroups(i), joint |-> Kind(i.model), jn |-> NB(i),
   nprior |-> Len(PriorEntries(i)), entries |-> Entries(i), weights |-> Weights(i),
   at |-> [g |-> <<3, 4>>, flux |-> [b \in 1..NB(i) |-> NShared(i.model) + b]],
   pts |-> [k \in 1..Len(Pts) |-> PointOf(i, Pts[k])]]
Init == inp \in Cases /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp
Done == out # <<>>

PriorFirst == Done =>
  /\ \A k \in 1..Len(out[1].entries) : (out[1].entries[k][1] = "prior") <=> (k <= out[1].nprior)
  /\ inp.prior # <<>> => out[1].nprior = out[1].npars - 1
TwicePerMode == Done => \A b \in 1..NB(inp) : \A e \in 1..Len(inp.lay[b]) :
  \A k \in 1..NMode(inp.lay[b][e]) : \A part \in {"re", "im"} :
    Cardinality({x \in 1..Len(out[1].entries) : out[1].entries[x] = <<part, b, e, k>>}) = 1
FluxLast == Done => \A k \in 1..Len(Pts) : \A b \in 1..NB(inp) :
  out[1].pts[k].full[out[1].at.flux[b]] = Pts[k].fl[b]
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
