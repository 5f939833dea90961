-------------------------------- MODULE GMix --------------------------------
(* Two dimensional gaussian mixtures held in registers, and everything that   *)
(* can be done to them.  A component is <<p, row, col, irr, irc, icc>> with   *)
(* rational entries, so every derived quantity is exact.  Evaluation keeps    *)
(* normalised quantities; the specification keeps them explicitly (`norm`)    *)
(* and requires them never to be stale.                                       *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, Kinds,     \* registers; kind of the mixture held in each at the start
          Pars,            \* kind -> sequence of parameter vectors
          Start,           \* reg -> <<kind, index into Pars>>
          Fluxes, Cens, Shears,
          Ops,             \* operations explored
          EvalKinds, MaxEdits, MaxComps, MaxNum, XEval

VARIABLES mix, norm, edits, act
vars == <<mix, norm, edits, act>>
View == <<mix, norm, edits>>

P(c) == c[1]
Row(c) == c[2]
Col(c) == c[3]
Irr(c) == c[4]
Irc(c) == c[5]
Icc(c) == c[6]
Det(c) == RSub(RMul(Irr(c), Icc(c)), RSq(Irc(c)))
Size(c) == RAdd(Irr(c), Icc(c))
Pos(c) == RSign(Det(c)) > 0 /\ RSign(Size(c)) > 0
AllPos(cs) == \A i \in 1..Len(cs): Pos(cs[i])

(* ---- building ---- *)
\* reduced shear to ellipticity
E1(g1, g2) == RDiv(RMul(RI(2), g1), RAdd(ROne, RAdd(RSq(g1), RSq(g2))))
E2(g1, g2) == E1(g2, g1)
Ell(p, row, col, g1, g2, T) ==
  LET h == RDiv(T, RI(2))
      e1 == E1(g1, g2)
  IN <<p, row, col, RMul(h, RSub(ROne, e1)), RMul(h, E2(g1, g2)),
       RMul(h, RAdd(ROne, e1))>>

InDisk(g1, g2) == RLt(RAdd(RSq(g1), RSq(g2)), ROne)

NPars(kind, n) == CASE kind = "full" -> 6 * n
                    [] kind = "gauss" -> 6
                    [] kind = "coellip" -> 4 + 2 * n

Comps(kind, q) ==
  CASE kind = "full" ->
         [i \in 1..(Len(q) \div 6) |-> [j \in 1..6 |-> q[6 * (i - 1) + j]]]
    [] kind = "gauss" -> <<Ell(q[6], q[1], q[2], q[3], q[4], q[5])>>
    [] kind = "coellip" ->
         LET n == (Len(q) - 4) \div 2
         IN [i \in 1..n |-> Ell(q[4 + n + i], q[1], q[2], q[3], q[4], q[4 + i])]

GoodPars(kind, q) == kind = "full" \/ InDisk(q[3], q[4])

(* ---- what the parts say about the whole ---- *)
Col1(cs, F(_)) == [i \in 1..Len(cs) |-> F(cs[i])]
Flux(cs) == RSum(Col1(cs, P))
MeanRow(cs) == RDiv(RSum([i \in 1..Len(cs) |-> RMul(P(cs[i]), Row(cs[i]))]), Flux(cs))
MeanCol(cs) == RDiv(RSum([i \in 1..Len(cs) |-> RMul(P(cs[i]), Col(cs[i]))]), Flux(cs))
Mom(cs, F(_), dr(_, _), dc(_, _)) ==
  LET r == MeanRow(cs)
      c == MeanCol(cs)
  IN RDiv(RSum([i \in 1..Len(cs) |->
        RMul(P(cs[i]), RAdd(F(cs[i]), RMul(dr(cs[i], <<r, c>>), dc(cs[i], <<r, c>>))))]),
        Flux(cs))
DR(c, m) == RSub(Row(c), m[1])
DC(c, m) == RSub(Col(c), m[2])
TotRR(cs) == Mom(cs, Irr, DR, DR)
TotRC(cs) == Mom(cs, Irc, DR, DC)
TotCC(cs) == Mom(cs, Icc, DC, DC)
TotT(cs) == RAdd(TotRR(cs), TotCC(cs))
TotE1(cs) == RDiv(RSub(TotCC(cs), TotRR(cs)), TotT(cs))
TotE2(cs) == RDiv(RMul(RI(2), TotRC(cs)), TotT(cs))

\* the arithmetic is exact within 32 bits: larger numbers are not explored
Tame(n, q) == RAbsI(q[1]) <= n /\ q[2] <= n
TameAll(cs) == \A i \in 1..Len(cs): \A j \in 1..6: Tame(MaxNum, cs[i][j])
TameTot(cs) == Tame(200, TotRR(cs)) /\ Tame(200, TotRC(cs)) /\ Tame(200, TotCC(cs))

HasFlux(cs) == RSign(Flux(cs)) # 0
HasShape(cs) == HasFlux(cs) /\ RSign(TotT(cs)) # 0
\* the total ellipticity is a proper one
Proper(cs) == /\ HasFlux(cs)
              /\ TameTot(cs)
              /\ RSign(TotT(cs)) > 0
              /\ RLt(RSq(TotRC(cs)), RMul(TotRR(cs), TotCC(cs)))

Derived(cs) ==
  [n |-> Len(cs), flux |-> Flux(cs),
   cen |-> IF HasFlux(cs) THEN <<MeanRow(cs), MeanCol(cs)>> ELSE <<>>,
   shape |-> IF HasFlux(cs) /\ TameTot(cs) /\ HasShape(cs) THEN <<TotE1(cs), TotE2(cs), TotT(cs)>> ELSE <<>>,
   proper |-> Proper(cs), positive |-> AllPos(cs)]

(* ---- exact square roots, where they exist ---- *)
Squares == [k \in 0..200 |-> k * k]
SqSet == {Squares[k] : k \in 0..200}
IsSq(n) == n \in SqSet
ISqrt(n) == CHOOSE k \in 0..200: Squares[k] = n
RIsSq(q) == IsSq(q[1]) /\ IsSq(q[2])
RSqrt(q) == <<ISqrt(q[1]), ISqrt(q[2])>>

(* ---- the operations on components ---- *)
Scale(cs, f) == LET k == RDiv(f, Flux(cs))
                IN [i \in 1..Len(cs) |-> [cs[i] EXCEPT ![1] = RMul(k, @)]]
Shift(cs, c) ==
  LET dr == RSub(c[1], MeanRow(cs))
      dc == RSub(c[2], MeanCol(cs))
  IN [i \in 1..Len(cs) |-> [cs[i] EXCEPT ![2] = RAdd(@, dr), ![3] = RAdd(@, dc)]]

\* area preserving shear A M A^T, A = ((1+s1, s2), (s2, 1-s1)) / sqrt(1-s^2)
\* in the order (col, row)
ShearC(c, s) ==
  LET k == RInv(RSub(ROne, RAdd(RSq(s[1]), RSq(s[2]))))
      a == RAdd(ROne, s[1])
      b == s[2]
      d == RSub(ROne, s[1])
      xx == Icc(c)
      xy == Irc(c)
      yy == Irr(c)
      nxx == RSum(<<RMul(RSq(a), xx), RMul(RI(2), RMul(RMul(a, b), xy)), RMul(RSq(b), yy)>>)
      nxy == RSum(<<RMul(RMul(a, b), xx), RMul(RAdd(RMul(a, d), RSq(b)), xy), RMul(RMul(b, d), yy)>>)
      nyy == RSum(<<RMul(RSq(b), xx), RMul(RI(2), RMul(RMul(b, d), xy)), RMul(RSq(d), yy)>>)
  IN <<P(c), Row(c), Col(c), RMul(k, nyy), RMul(k, nxy), RMul(k, nxx)>>
ShearAll(cs, s) == [i \in 1..Len(cs) |-> ShearC(cs[i], s)]

ESq(cs) == RAdd(RSq(TotE1(cs)), RSq(TotE2(cs)))
\* the factor by which rounding changes sizes: as by a shear, or so as to
\* contain the largest extent
RoundFactor(cs, preserve) == IF preserve THEN RAdd(ROne, RSqrt(ESq(cs)))
                             ELSE RSqrt(RSub(ROne, ESq(cs)))
CanRound(cs, preserve) ==
  /\ Proper(cs)
  /\ Tame(150, TotE1(cs))
  /\ Tame(150, TotE2(cs))
  /\ IF preserve THEN RIsSq(ESq(cs)) ELSE RIsSq(RSub(ROne, ESq(cs)))
RoundAll(cs, preserve) ==
  LET f == RoundFactor(cs, preserve)
  IN [i \in 1..Len(cs) |->
        LET h == RMul(f, RDiv(Size(cs[i]), RI(2)))
        IN <<P(cs[i]), Row(cs[i]), Col(cs[i]), h, RZero, h>>]

Conv(cs, ps) ==
  LET f == Flux(ps)
      mr == MeanRow(ps)
      mc == MeanCol(ps)
      n == Len(ps)
  IN [k \in 1..(Len(cs) * n) |->
        LET o == cs[((k - 1) \div n) + 1]
            p == ps[((k - 1) % n) + 1]
        IN <<RMul(P(o), RDiv(P(p), f)),
             RAdd(Row(o), RSub(Row(p), mr)), RAdd(Col(o), RSub(Col(p), mc)),
             RAdd(Irr(o), Irr(p)), RAdd(Irc(o), Irc(p)), RAdd(Icc(o), Icc(p))>>]

Zero(n) == [i \in 1..n |-> [j \in 1..6 |-> RZero]]

(* ---- transitions ---- *)
A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]
Put(r, kind, cs, n) ==
  /\ TameAll(cs)
  /\ mix' = [mix EXCEPT ![r] = [kind |-> kind, comps |-> cs]]
  /\ norm' = [norm EXCEPT ![r] = n]
Edit == edits < MaxEdits /\ edits' = edits + 1
Same == UNCHANGED <<mix, norm, edits>>

Init == /\ mix = [r \in Regs |-> [kind |-> Start[r][1],
                     comps |-> Comps(Start[r][1], Pars[Start[r][1]][Start[r][2]])]]
        /\ norm = [r \in Regs |-> <<>>]
        /\ edits = 0
        /\ act = A("init", <<>>, TRUE)

Refill(r, k) ==
  LET kd == mix[r].kind
      q == Pars[kd][k]
      same == Len(Comps(kd, q)) = Len(mix[r].comps)
  IN IF ~same
     THEN /\ Same
          /\ act' = A("refill", <<r, kd, k>>, FALSE)
     ELSE /\ GoodPars(kd, q)
          /\ Edit
          /\ Put(r, kd, Comps(kd, q), <<>>)
          /\ act' = A("refill", <<r, kd, k>>, TRUE)
WrongFill(r, d) == Same /\ act' = A("wrongfill", <<r, d>>, FALSE)
\* a shape on or outside the unit circle
BadFill(r, g) == /\ mix[r].kind # "full"
                 /\ Same
                 /\ act' = A("badfill", <<r, g>>, FALSE)
Reset(r) == /\ Edit
            /\ Put(r, mix[r].kind, Zero(Len(mix[r].comps)), <<>>)
            /\ act' = A("reset", <<r>>, TRUE)
SetFlux(r, f) == /\ HasFlux(mix[r].comps)
                 /\ Edit
                 /\ Put(r, mix[r].kind, Scale(mix[r].comps, f), <<>>)
                 /\ act' = A("set_flux", <<r, f>>, TRUE)
SetCen(r, c) == /\ HasFlux(mix[r].comps)
                /\ Edit
                \* the normalised quantities do not involve the centre
                /\ Put(r, mix[r].kind, Shift(mix[r].comps, c),
                       IF norm[r] = <<>> THEN <<>> ELSE Shift(mix[r].comps, c))
                /\ act' = A("set_cen", <<r, c>>, TRUE)
Shear(r, s, t) == /\ AllPos(mix[r].comps)
                  /\ Edit
                  /\ Put(t, mix[r].kind, ShearAll(mix[r].comps, s), <<>>)
                  /\ act' = A("shear", <<r, s, t>>, TRUE)
Round(r, pres, t) == /\ CanRound(mix[r].comps, pres)
                     /\ Edit
                     /\ Put(t, mix[r].kind, RoundAll(mix[r].comps, pres), <<>>)
                     /\ act' = A("round", <<r, pres, t>>, TRUE)
Convolve(r, p, t) ==
  /\ HasFlux(mix[p].comps)
  /\ Len(mix[r].comps) * Len(mix[p].comps) <= MaxComps
  /\ Edit
  /\ Put(t, "full", Conv(mix[r].comps, mix[p].comps), <<>>)
  /\ act' = A("convolve", <<r, p, t>>, TRUE)
WrongConvolve(r) == Same /\ act' = A("wrongconvolve", <<r>>, FALSE)
Copy(r, t, how) ==
  /\ r # t
  /\ Edit
  /\ Put(t, mix[r].kind, mix[r].comps, norm[r])
  /\ act' = A("copy", <<r, t, how>>, TRUE)
Concat(r, s, t) ==
  /\ Len(mix[r].comps) + Len(mix[s].comps) <= MaxComps
  /\ Edit
  /\ Put(t, "full", mix[r].comps \o mix[s].comps, <<>>)
  /\ act' = A("concat", <<r, s, t>>, TRUE)
(* evaluation normalises when needed, and is refused while a component has no  *)
(* positive covariance, however often it is tried                              *)
Eval(r, how) ==
  LET ok == AllPos(mix[r].comps)
  IN /\ norm' = IF ok THEN [norm EXCEPT ![r] = mix[r].comps] ELSE norm
     /\ UNCHANGED <<mix, edits>>
     /\ act' = A("eval", <<r, how>>, ok)

Next ==
  \/ "refill" \in Ops /\ \E r \in Regs: \E k \in 1..Len(Pars[mix[r].kind]): Refill(r, k)
  \/ "wrongfill" \in Ops /\ \E r \in Regs, d \in {-1, 1, 6}: WrongFill(r, d)
  \/ "wrongfill" \in Ops /\ \E r \in Regs, g \in {<<<<3, 5>>, <<4, 5>>>>, <<<<0, 1>>, <<-2, 1>>>>}: BadFill(r, g)
  \/ "reset" \in Ops /\ \E r \in Regs: Reset(r)
  \/ "set_flux" \in Ops /\ \E r \in Regs, f \in Fluxes: SetFlux(r, f)
  \/ "set_cen" \in Ops /\ \E r \in Regs, c \in Cens: SetCen(r, c)
  \/ "shear" \in Ops /\ \E r, t \in Regs, s \in Shears: Shear(r, s, t)
  \/ "round" \in Ops /\ \E r, t \in Regs, pr \in BOOLEAN: Round(r, pr, t)
  \/ "convolve" \in Ops /\ \E r, p, t \in Regs: Convolve(r, p, t)
  \/ "convolve" \in Ops /\ \E r \in Regs: WrongConvolve(r)
  \/ "copy" \in Ops /\ \E r, t \in Regs, h \in {"copy", "copy.copy", "deepcopy"}: Copy(r, t, h)
  \/ "concat" \in Ops /\ \E r, s, t \in Regs: Concat(r, s, t)
  \/ \E r \in Regs, h \in EvalKinds: Eval(r, h)

(* ---- properties ---- *)
\* what evaluation uses is what the components say
NeverStale == \A r \in Regs: norm[r] = <<>> \/ norm[r] = mix[r].comps
NormOnlyIfPositive == \A r \in Regs: norm[r] = <<>> \/ AllPos(mix[r].comps)
RefusedUnchanged == [][act'.ok = FALSE => UNCHANGED <<mix>>]_vars
EvalPure == [][act'.op = "eval" => UNCHANGED <<mix>>]_vars
FluxLaw == [][act'.op = "set_flux" =>
   LET r == act'.args[1] IN
   /\ Flux(mix'[r].comps) = act'.args[2]
   /\ MeanRow(mix'[r].comps) = MeanRow(mix[r].comps)
   /\ TotRR(mix'[r].comps) = TotRR(mix[r].comps)]_vars
CenLaw == [][act'.op = "set_cen" =>
   LET r == act'.args[1] IN
   /\ <<MeanRow(mix'[r].comps), MeanCol(mix'[r].comps)>> = act'.args[2]
   /\ TotRR(mix'[r].comps) = TotRR(mix[r].comps)
   /\ TotRC(mix'[r].comps) = TotRC(mix[r].comps)
   /\ Flux(mix'[r].comps) = Flux(mix[r].comps)]_vars
\* flux and centre survive convolution, covariances add
ConvLaw == [][act'.op = "convolve" =>
   LET o == mix[act'.args[1]].comps
       p == mix[act'.args[2]].comps
       t == mix'[act'.args[3]].comps
   IN /\ Flux(t) = Flux(o)
      /\ HasFlux(o) => /\ MeanRow(t) = MeanRow(o)
                       /\ MeanCol(t) = MeanCol(o)
                       /\ TotRR(t) = RAdd(TotRR(o), TotRR(p))
                       /\ TotRC(t) = RAdd(TotRC(o), TotRC(p))
                       /\ TotCC(t) = RAdd(TotCC(o), TotCC(p))]_vars
RoundLaw == [][act'.op = "round" =>
   \A i \in 1..Len(mix'[act'.args[3]].comps):
     LET c == mix'[act'.args[3]].comps[i] IN Irc(c) = RZero /\ Irr(c) = Icc(c)]_vars
\* shear preserves the area and composes with the shape by the addition rule
ShearLaw == [][act'.op = "shear" =>
   \A i \in 1..Len(mix'[act'.args[3]].comps):
     Det(mix'[act'.args[3]].comps[i]) = Det(mix[act'.args[1]].comps[i])]_vars

Proj(m, n, e) == [mix |-> [r \in Regs |-> m[r]],
                  norm |-> [r \in Regs |-> n[r] # <<>>], edits |-> e]
\* what the state implies is printed once for each state, with one of its moves
Emit == IF XEval # "" /\ act'.op = "eval" /\ act'.args = <<1, XEval>>
        THEN PrintT(ToJson([f |-> Proj(mix, norm, edits), a |-> act',
                       t |-> Proj(mix', norm', edits'),
                       x |-> [d |-> [r \in Regs |-> Derived(mix[r].comps)]]]))
        ELSE PrintT(ToJson([f |-> Proj(mix, norm, edits), a |-> act',
                       t |-> Proj(mix', norm', edits')]))
==============================================================================
