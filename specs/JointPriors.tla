----------------------------- MODULE JointPriors -----------------------------
(* Joint priors of fits: a list of groups, each a prior of its own on one     *)
(* parameter or a pair, laid out in the order of the fit's parameters.        *)
EXTENDS JointLib, FiniteSets, TLC, Json

CONSTANTS Kinds,     \* of joint prior
          Ns,        \* bands, or components of a coelliptical
          Pool1,     \* sequence of <<kind, parameters>> on one parameter
          PoolF,     \* the same for those that only have residuals and bounds
          Cens, BAs, \* parameters of centre and shape priors
          Rots,      \* which of the pool is used where
          Looks,     \* sequence of relative points
          Ways       \* which relative point is used where

VARIABLES inp, out
vars == <<inp, out>>
Cases == [kind : Kinds, n : Ns, cen : Cens, ba : BAs, rot : Rots, fonly : BOOLEAN]

\* residuals keep their sign in these
Signed(k) == k \in {"bd", "bdf"}
Ok(i) == i.fonly => Signed(i.kind)
Groups(i) == GroupsIn(IF i.fonly THEN PoolF ELSE Pool1, i)

HasBounds(g) == g.kind \in {"lmbounds", "normalb"}
BoundsOf(g) == IF g.kind = "lmbounds" THEN g.p
               ELSE IF g.kind = "normalb" THEN <<g.p[3], g.p[4]>> ELSE <<>>
AnyBounds(i) == \E k \in 1..Len(Groups(i)) : HasBounds(Groups(i)[k])
\* one entry per parameter, nothing when none has any
BoundsList(i) ==
  LET gs == Groups(i)
      of(k) == CHOOSE g \in 1..Len(gs) : \E s \in 1..Len(gs[g].at) : gs[g].at[s] = k
  IN IF AnyBounds(i) THEN [k \in 1..NPars(i) |-> BoundsOf(gs[of(k)])] ELSE <<>>

(* ---- evaluation ---- *)
LookAt(g, way, j) ==
  LET t == Looks[((j * 5 + way) % Len(Looks)) + 1]
      u == Looks[((j * 5 + way + 3) % Len(Looks)) + 1]
      p == g.p
      between(a, b) == RAdd(a, RMul(t, RSub(b, a)))
  IN CASE g.kind \in {"flat", "lmbounds"} -> <<between(p[1], p[2])>>
       [] g.kind = "erf" -> <<between(p[1], p[3])>>
       [] g.kind = "trunc" -> <<between(p[3], p[4])>>
       [] g.kind \in {"normal", "normalb", "sinh"} -> <<RAdd(p[1], RMul(RMul(RI(2), t), p[2]))>>
       [] g.kind = "lognormal" -> <<RAdd(p[3], RMul(t, p[1]))>>
       [] g.kind = "cen" -> <<RAdd(p[1], RMul(p[3], t)), RAdd(p[2], RMul(p[4], u))>>
       [] g.kind = "ba" -> <<RMul(Q(3, 4), t), RMul(Q(-1, 2), u)>>
PointOf(i, way) == [k \in 1..Len(Groups(i)) |-> LookAt(Groups(i)[k], way, k)]
Bad(i, way) ==
  LET gs == Groups(i)
      xs == PointOf(i, way)
      out_ == {k \in 1..Len(gs) : ~In(gs[k], xs[k])}
  IN IF out_ = {} THEN "no" ELSE IF out_ = {2} THEN "low" ELSE "range"
HasLnp(i) == ~i.fonly
LnpOf(i, way) == TSum([k \in 1..Len(Groups(i)) |-> Lnp(Groups(i)[k], PointOf(i, way)[k])])
ResOf(i, way) == Flat2([k \in 1..Len(Groups(i)) |-> Fdiff(Groups(i)[k], PointOf(i, way)[k])])
Answer(i) ==
  [groups |-> Groups(i), npars |-> NPars(i), bounds |-> BoundsList(i), signed |-> Signed(i.kind),
   haslnp |-> HasLnp(i),
   pts |-> [w \in 1..Ways |->
     LET b == Bad(i, w)
     IN [x |-> Flat2(PointOf(i, w)), bad |-> b,
         lnp |-> IF b = "no" /\ HasLnp(i) THEN LnpOf(i, w) ELSE <<"none">>,
         fdiff |-> IF b = "no" THEN ResOf(i, w) ELSE <<>>]]]
Init == inp \in {i \in Cases : Ok(i)} /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp /\ out' = <<Answer(inp)>>
Done == out # <<>>

\* the groups cover the parameters, each once and in order
Order == Done => Flat2([k \in 1..Len(out[1].groups) |-> out[1].groups[k].at]) = [k \in 1..out[1].npars |-> k]
Points == Done => \A w \in 1..Ways : Len(out[1].pts[w].x) = out[1].npars
\* the shape has one residual, everything else one per parameter
Residuals == Done => \A w \in 1..Ways : out[1].pts[w].bad = "no" => Len(out[1].pts[w].fdiff) = out[1].npars - 1
OnePerParameter == Done => (out[1].bounds = <<>> \/ Len(out[1].bounds) = out[1].npars)
\* squares of the residuals sum to minus twice the logarithm, shape by shape of the rational groups
SquaresSum == Done => \A k \in 1..Len(Groups(inp)) : \A w \in 1..Ways :
  LET g == Groups(inp)[k]
      x == PointOf(inp, w)[k]
  IN (g.kind \in {"flat", "normal", "normalb", "trunc", "cen"} /\ In(g, x)) =>
       RSum([j \in 1..Len(Fdiff(g, x)) |-> RSq(Fdiff(g, x)[j])]) = RMul(RI(-2), Lnp(g, x))
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
