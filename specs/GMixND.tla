-------------------------------- MODULE GMixND --------------------------------
(* Mixtures of normal densities in one to three dimensions, evaluated at       *)
(* points.  Densities are given by the logarithm of each component, a term     *)
(* over exact numbers; the density is the sum of their exponentials.           *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cases     \* set of [id, weights, means, covars, points]

VARIABLES inp, out
vars == <<inp, out>>

\* ---- matrices as sequences of rows, size 1..3 ----
Minor(m, i, j) ==
  LET n == Len(m)
      Skip(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, n)
      rows == Skip(m, i)
  IN [r \in 1..(n - 1) |-> Skip(rows[r], j)]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN ROne ELSE IF Len(m) = 1 THEN m[1][1]
          ELSE RSum([j \in 1..Len(m) |->
                 RMul(IF j % 2 = 1 THEN ROne ELSE RI(-1), RMul(m[1][j], Det(Minor(m, 1, j))))])
Cof(m, i, j) == RMul(IF (i + j) % 2 = 0 THEN ROne ELSE RI(-1), Det(Minor(m, i, j)))
\* the quadratic form of the inverse
Chi2(m, x) == LET n == Len(m)
                  d == Det(m)
              IN RDiv(RSum([k \in 1..(n * n) |->
                   LET i == (k - 1) \div n + 1
                       j == ((k - 1) % n) + 1
                   IN RMul(RMul(x[i], x[j]), Cof(m, j, i))]), d)
Sub(x, y) == [k \in DOMAIN x |-> RSub(x[k], y[k])]

\* positive definite: leading minors
Lead(m, k) == [r \in 1..k |-> SubSeq(m[r], 1, k)]
Positive(m) == \A k \in 1..Len(m) : RLt(RZero, Det(Lead(m, k)))

\* the log of one normal density, without its weight
LnNormal(mean, cov, x) ==
  TSub(TMul(Q(-1, 2), Chi2(cov, Sub(x, mean))),
       TMul(Q(1, 2), TAdd(TMul(RI(Len(x)), TLog(TMul(RI(2), TPi))), TLog(Det(cov)))))
\* at S times a point, for numbers S too large for exact arithmetic
Far == RI(1000000)
LnFar(c, k, x) ==
  LET cov == c.covars[k]
      m == c.means[k]
      cx == Chi2(cov, x)
      cm == Chi2(cov, m)
      cross == RSub(RAdd(cx, cm), Chi2(cov, Sub(x, m)))
      chi == TAdd(TSub(TMul(TMul(Far, Far), cx), TMul(Far, cross)), cm)
  IN IF c.weights[k] = RZero THEN TNInf
     ELSE TAdd(TLog(c.weights[k]), TSub(TMul(Q(-1, 2), chi),
            TMul(Q(1, 2), TAdd(TMul(RI(Len(x)), TLog(TMul(RI(2), TPi))), TLog(Det(cov))))))
LnPart(c, k, x) ==
  IF c.weights[k] = RZero THEN TNInf
  ELSE TAdd(TLog(c.weights[k]), LnNormal(c.means[k], c.covars[k], x))
Answer(c) ==
  [dim |-> Len(c.means[1]), number |-> Len(c.weights),
   at |-> [p \in DOMAIN c.points |-> [k \in DOMAIN c.weights |-> LnPart(c, k, c.points[p])]],
   far |-> [p \in DOMAIN c.points |-> [k \in DOMAIN c.weights |-> LnFar(c, k, c.points[p])]],
   mean |-> [i \in DOMAIN c.means[1] |->
      RDiv(RSum([k \in DOMAIN c.weights |-> RMul(c.weights[k], c.means[k][i])]), RSum(c.weights))]]

Init == inp \in Cases /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp)>> /\ UNCHANGED inp

(* ---- laws ---- *)
Done == out # <<>>
AllPositive == \A k \in DOMAIN inp.covars : Positive(inp.covars[k])
Over(P(_, _)) == \A k \in DOMAIN inp.weights, p \in DOMAIN inp.points : P(k, inp.points[p])
Diff(k, x) == Sub(x, inp.means[k])
\* the peak is at the mean and only there
Peak == Done => Over(LAMBDA k, x :
   LET c == Chi2(inp.covars[k], Diff(k, x))
   IN RLe(RZero, c) /\ ((c = RZero) <=> (x = inp.means[k])))
\* symmetric about it
Mirror == Done => Over(LAMBDA k, x :
   Chi2(inp.covars[k], Diff(k, x)) = Chi2(inp.covars[k], Sub(inp.means[k], x)))
\* units: distances doubled with covariances four times as large
Units == Done => Over(LAMBDA k, x :
   LET c == inp.covars[k]
       big == [i \in DOMAIN c |-> [j \in DOMAIN c |-> RMul(RI(4), c[i][j])]]
       d == Diff(k, x)
       n == Len(c)
   IN /\ Chi2(big, [i \in DOMAIN d |-> RMul(RI(2), d[i])]) = Chi2(c, d)
      /\ Det(big) = RMul(RI(4 ^ n), Det(c)))
\* the order of the dimensions does not matter
Flip(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Relabel == Done => Over(LAMBDA k, x :
   LET c == Flip([i \in DOMAIN inp.covars[k] |-> Flip(inp.covars[k][i])])
   IN Chi2(c, Flip(Diff(k, x))) = Chi2(inp.covars[k], Diff(k, x)) /\ Det(c) = Det(inp.covars[k]))
\* uncorrelated dimensions multiply
Product == Done => Over(LAMBDA k, x :
   LET c == inp.covars[k]
       d == Diff(k, x)
   IN (\A i, j \in DOMAIN c : i # j => c[i][j] = RZero) =>
        /\ Chi2(c, d) = RSum([i \in DOMAIN c |-> RDiv(RSq(d[i]), c[i][i])])
        /\ Det(c) = RProd([i \in DOMAIN c |-> c[i][i]]))
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
===============================================================================
