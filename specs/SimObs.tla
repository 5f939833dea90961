-------------------------------- MODULE SimObs --------------------------------
(* Simulated observations: the image of the mixture, convolved by the psf of   *)
(* the epoch when asked, plus noise of the size the weight map gives, epoch by *)
(* epoch from one generator; the input stays as it was.                        *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Inputs     \* set of [kind, lay, opt, mix, mixes]: what is simulated, bands of
                    \*   epochs [dims, wt, raw, ignore, psf], options (factor is <<>> when
                    \*   there is none), mixtures

VARIABLES inp, at, drawn, made, status
vars == <<inp, at, drawn, made, status>>

NB(i) == Len(i.lay)
RECURSIVE Cat(_, _)
Cat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Cat(s, k + 1)
\* the epochs in the order they are simulated
Order(i) == Cat([b \in 1..NB(i) |-> [e \in 1..Len(i.lay[b]) |-> <<b, e>>]], 1)
NPix(e) == e.dims[1] * e.dims[2]
Wt(e, k) == e.wt[((k - 1) % Len(e.wt)) + 1]
Raw(e, k) == e.raw[((k - 1) % Len(e.raw)) + 1]

(* ---- what is asked for makes sense ---- *)
\* mix: "none", "one", "each" (a list, one per band), "short" (a list too short),
\*   "number" (not a mixture), "numbers" (a list of no mixtures)
MixOk(i) == IF i.kind = "mb" THEN i.mix \in {"none", "each"} ELSE i.mix \in {"none", "one"}
RngOk(i) == i.opt.rng \/ ~i.opt.add
PsfOk(i, e) == i.mix = "none" \/ ~i.opt.conv \/ (e.psf # <<>> /\ e.psf[1] # <<>>)
Usable(e) == \E k \in 1..NPix(e) : Wt(e, k) > 0
Refusal(i, e) == IF ~RngOk(i) THEN "value"
                 ELSE IF ~PsfOk(i, e) THEN "psf"
                 ELSE IF ~Usable(e) THEN "empty" ELSE "ok"

(* ---- the image ---- *)
\* components <<flux, row, col, rr, rc, cc>>; psf: <<>> no psf, <<comps>>
PFlux(ps) == RSum([k \in 1..Len(ps) |-> ps[k][1]])
PCen(ps, d) == RDiv(RSum([k \in 1..Len(ps) |-> RMul(ps[k][1], ps[k][d])]), PFlux(ps))
Conv(c, p, ps) ==
  <<RDiv(RMul(c[1], p[1]), PFlux(ps)),
    RAdd(c[2], RSub(p[2], PCen(ps, 2))), RAdd(c[3], RSub(p[3], PCen(ps, 3))),
    RAdd(c[4], p[4]), RAdd(c[5], p[5]), RAdd(c[6], p[6])>>
MixOf(i, b) == i.mixes[b]
Comps(i, b, e) ==
  IF i.mix = "none" THEN <<>>
  ELSE IF ~i.opt.conv THEN MixOf(i, b)
  ELSE Cat([k \in 1..Len(MixOf(i, b)) |->
         [x \in 1..Len(e.psf[1]) |-> Conv(MixOf(i, b)[k], e.psf[1][x], e.psf[1])]], 1)

(* ---- the noise ---- *)
\* the map noise is made from
Map(i, e) == [k \in 1..NPix(e) |-> IF i.opt.useraw /\ e.raw # <<>> THEN Raw(e, k) ELSE Wt(e, k)]
\* weights are perfect squares
Root(w) == IF w = 16777216 THEN 4096 ELSE CHOOSE r \in 1..8 : r * r = w
Err1(w) == Q(1, Root(w))
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>>
             ELSE IF RLe(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Ins(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Ins(Sorted(Tail(s)), Head(s))
Median(s) == LET n == Len(s) z == Sorted(s)
             IN IF n % 2 = 1 THEN z[(n + 1) \div 2]
                ELSE RMul(Q(1, 2), RAdd(z[n \div 2], z[n \div 2 + 1]))
Factor(i) == IF i.opt.factor = <<>> THEN ROne ELSE i.opt.factor
\* the size of the noise; "big" everywhere when the map has no positive entry
Errs(i, m) ==
  LET n == Len(m)
      good == SelectSeq(m, LAMBDA w : w > 0)
      med == Median([k \in 1..Len(good) |-> Err1(good[k])])
  IN [k \in 1..n |-> IF ~i.opt.add THEN RZero
        ELSE IF good = <<>> THEN <<"big">>
        ELSE RMul(Factor(i), IF m[k] > 0 THEN Err1(m[k]) ELSE IF i.opt.all THEN med ELSE RZero)]
NewWt(i, e) == [k \in 1..NPix(e) |-> RDiv(RI(Wt(e, k)), RSq(Factor(i)))]
Epoch(i, b, e) == [comps |-> Comps(i, b, e), err |-> Errs(i, Map(i, e)), wt |-> NewWt(i, e)]

Init == inp \in Inputs /\ at = 1 /\ drawn = 0 /\ made = <<>> /\ status = "begin"
Here == LET o == Order(inp)[at] IN inp.lay[o[1]][o[2]]
Begin == /\ status = "begin" /\ status' = (IF MixOk(inp) THEN "run" ELSE "value")
         /\ UNCHANGED <<inp, at, drawn, made>>
Simulate == /\ status = "run" /\ at <= Len(Order(inp)) /\ Refusal(inp, Here) = "ok"
            /\ LET e == Here
                   x == Epoch(inp, Order(inp)[at][1], e)
               IN /\ made' = Append(made, [comps |-> x.comps, err |-> x.err, wt |-> x.wt,
                                           first |-> drawn])
                  /\ drawn' = drawn + (IF inp.opt.add THEN NPix(e) ELSE 0)
            /\ at' = at + 1 /\ UNCHANGED <<inp, status>>
Refuse == /\ status = "run" /\ at <= Len(Order(inp)) /\ Refusal(inp, Here) # "ok"
          /\ status' = Refusal(inp, Here) /\ UNCHANGED <<inp, at, drawn, made>>
Finish == /\ status = "run" /\ at > Len(Order(inp))
          /\ status' = "done" /\ UNCHANGED <<inp, at, drawn, made>>
Next == Begin \/ Simulate \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
EpochAt(k) == LET o == Order(inp)[k] IN inp.lay[o[1]][o[2]]
\* every pixel has its own draw
OwnDraws == /\ \A k \in 1..Len(made) : made[k].first >= 0 /\ made[k].first <= drawn
            /\ \A k \in 1..(Len(made) - 1) :
                 made[k + 1].first = made[k].first + (IF inp.opt.add THEN NPix(EpochAt(k)) ELSE 0)
            /\ drawn = (IF inp.opt.add
                        THEN LET t[k \in 0..Len(made)] == IF k = 0 THEN 0 ELSE t[k - 1] + NPix(EpochAt(k))
                             IN t[Len(made)] ELSE 0)
\* the new weights are those of the noise, where it is made from the weights
MatchedWeights == \A k \in 1..Len(made) :
   (inp.opt.add /\ Map(inp, EpochAt(k)) = [x \in 1..NPix(EpochAt(k)) |-> Wt(EpochAt(k), x)]) =>
      \A x \in 1..Len(made[k].wt) :
         RSign(made[k].wt[x]) > 0 => RMul(made[k].wt[x], RSq(made[k].err[x])) = ROne
\* noise of masked pixels is typical of the others, or there is none
Typical == \A k \in 1..Len(made) :
   LET m == Map(inp, EpochAt(k))
       good == {x \in 1..Len(m) : m[x] > 0}
   IN (inp.opt.add /\ good # {}) =>
        \A x \in (1..Len(m)) \ good :
          IF inp.opt.all
          THEN /\ \E y \in good : RLe(made[k].err[y], made[k].err[x])
               /\ \E y \in good : RLe(made[k].err[x], made[k].err[y])
          ELSE made[k].err[x] = RZero
\* convolution keeps flux
RECURSIVE FluxOf(_)
FluxOf(c) == RSum([k \in 1..Len(c) |-> c[k][1]])
FluxKept == \A k \in 1..Len(made) :
   inp.mix # "none" => FluxOf(made[k].comps) = FluxOf(MixOf(inp, Order(inp)[k][1]))
Quiet == \A k \in 1..Len(made) : ~inp.opt.add => \A x \in 1..Len(made[k].err) : made[k].err[x] = RZero
Whole == status = "done" => Len(made) = Len(Order(inp))
InputKept == [][inp' = inp]_vars
Emit == status' = "run" \/ PrintT(ToJson([inp |-> inp, made |-> made', status |-> status']))
===============================================================================
