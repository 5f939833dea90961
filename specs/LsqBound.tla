------------------------------ MODULE LsqBound -------------------------------
(* Bounded least squares: parameters live in a box, the search moves in an    *)
(* unbounded space.  The maps between the two are stated as terms and their   *)
(* algebra (range, inverse, slope) is checked exactly where the numbers are   *)
(* rational.  Linear problems have exact answers.                             *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mats,      \* <<rows of A, b>>, all integers
          NPriors, KSpace,
          Kinds,     \* one of "none", "lower", "upper", "both" per parameter
          Boxes,     \* <<below, above, offs>>: the bounds and the start, seen from
                     \* the solution, which may lie outside of the box
          Hyps, Sins \* <<x, sqrt(x^2+1)>>, <<sin, cos>> with rational values

VARIABLES inp, out
vars == <<inp, out>>

(* ---- the maps ---- *)
\* w: the transcendental part, x itself, sqrt(x^2+1) or sin(x)
Outside(A(_, _), S(_, _), M(_, _), kind, lo, hi, w) ==
  CASE kind = "none"  -> w
    [] kind = "lower" -> A(lo, S(w, ROne))
    [] kind = "upper" -> S(hi, S(w, ROne))
    [] kind = "both"  -> A(lo, M(M(S(hi, lo), Q(1, 2)), A(w, ROne)))
Inside(A(_, _), S(_, _), M(_, _), D(_, _), kind, lo, hi, e) ==
  CASE kind = "none"  -> e
    [] kind = "lower" -> A(S(e, lo), ROne)
    [] kind = "upper" -> A(S(hi, e), ROne)
    [] kind = "both"  -> S(D(M(RI(2), S(e, lo)), S(hi, lo)), ROne)
\* as terms
ExtT(kind, lo, hi, x) ==
  Outside(TAdd, TSub, TMul, kind, lo, hi,
          CASE kind = "none" -> x
            [] kind = "both" -> <<"sin", x>>
            [] OTHER -> TSqrt(TAdd(TMul(x, x), ROne)))
IntT(kind, lo, hi, e) ==
  LET w == Inside(RAdd, RSub, RMul, RDiv, kind, lo, hi, e)
  IN CASE kind = "none" -> w
       [] kind = "both" -> <<"asin", w>>
       [] OTHER -> TSqrt(RSub(RMul(w, w), ROne))

Limits == {<<RI(-2), RI(3)>>, <<RZero, Q(1, 2)>>, <<Q(1, 3), RI(7)>>}
PrimsOf(kind) == IF kind = "both" THEN {p[1] : p \in Sins}
                 ELSE IF kind = "none" THEN {p[1] : p \in Hyps} ELSE {p[2] : p \in Hyps}
AllKinds == {"none", "lower", "upper", "both"}
ASSUME Pythagoras == /\ \A p \in Hyps : RSq(p[2]) = RAdd(RSq(p[1]), ROne) /\ RLe(ROne, p[2])
                     /\ \A p \in Sins : RAdd(RSq(p[1]), RSq(p[2])) = ROne
ASSUME InRange ==
  \A k \in AllKinds, b \in Limits : \A w \in PrimsOf(k) :
    LET e == Outside(RAdd, RSub, RMul, k, b[1], b[2], w)
    IN /\ (k \in {"lower", "both"} => RLe(b[1], e))
       /\ (k \in {"upper", "both"} => RLe(e, b[2]))
ASSUME Undo ==
  \A k \in AllKinds, b \in Limits : \A w \in PrimsOf(k) :
    Inside(RAdd, RSub, RMul, RDiv, k, b[1], b[2],
           Outside(RAdd, RSub, RMul, k, b[1], b[2], w)) = w

(* ---- exact linear least squares ---- *)
Cases == [mat : Mats, nprior : NPriors, kspace : KSpace, kinds : Kinds, box : Boxes]
Rows(i) == Len(i.mat[1])
P(i) == Len(i.mat[1][1])
Ok(i) == /\ Len(i.kinds) = P(i) /\ i.nprior < Rows(i) /\ P(i) <= Rows(i)
         /\ (i.kspace => (Rows(i) - i.nprior) % 2 = 0)
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE f[n] + ISum(f, n - 1)
Gram(A) == [a \in 1..Len(A[1]) |-> [b \in 1..Len(A[1]) |->
             ISum([r \in 1..Len(A) |-> A[r][a] * A[r][b]], Len(A))]]
Proj(A, b) == [a \in 1..Len(A[1]) |-> ISum([r \in 1..Len(A) |-> A[r][a] * b[r]], Len(A))]
\* determinant and adjugate for one to three parameters
Minor(g, r, c) ==
  LET n == Len(g)
      rs == [k \in 1..n - 1 |-> IF k < r THEN k ELSE k + 1]
      cs == [k \in 1..n - 1 |-> IF k < c THEN k ELSE k + 1]
  IN [a \in 1..n - 1 |-> [b \in 1..n - 1 |-> g[rs[a]][cs[b]]]]
RECURSIVE IDet(_)
IDet(g) == IF Len(g) = 1 THEN g[1][1]
           ELSE ISum([c \in 1..Len(g) |->
                  (IF c % 2 = 1 THEN 1 ELSE -1) * g[1][c] * IDet(Minor(g, 1, c))], Len(g))
Adj(g) == IF Len(g) = 1 THEN << <<1>> >>
          ELSE [a \in 1..Len(g) |-> [b \in 1..Len(g) |->
                 (IF (a + b) % 2 = 0 THEN 1 ELSE -1) * IDet(Minor(g, b, a))]]
Inverse(g) == [a \in 1..Len(g) |-> [b \in 1..Len(g) |-> Q(Adj(g)[a][b], IDet(g))]]
Solution(A, b) ==
  LET g == Gram(A)  y == Proj(A, b)
  IN [a \in 1..Len(g) |-> Q(ISum([c \in 1..Len(g) |-> Adj(g)[a][c] * y[c]], Len(g)), IDet(g))]
Resid(A, b, x, r) == RSub(RSum([c \in 1..Len(x) |-> RMul(RI(A[r][c]), x[c])]), RI(b[r]))
Singular(i) == IDet(Gram(i.mat[1])) = 0
Dof(i) == LET n == Rows(i) - i.nprior IN (IF i.kspace THEN n \div 2 ELSE n) - P(i)

Answer(i) ==
  LET A == i.mat[1]
      sol == IF Singular(i) THEN [c \in 1..P(i) |-> RZero] ELSE Solution(A, i.mat[2])
      lo == [c \in 1..P(i) |-> RSub(sol[c], i.box[1])]
      hi == [c \in 1..P(i) |-> RAdd(sol[c], i.box[2])]
      start == [c \in 1..P(i) |-> RAdd(sol[c], i.box[3][((c - 1) % Len(i.box[3])) + 1])]
  IN [singular |-> Singular(i), sol |-> sol, lo |-> lo, hi |-> hi, start |-> start, dof |-> Dof(i),
      cov0 |-> IF Singular(i) THEN <<>> ELSE Inverse(Gram(A)),
      chi2 |-> RSum([r \in 1..Rows(i) - i.nprior |-> RSq(Resid(A, i.mat[2], sol, r + i.nprior))]),
      int |-> [c \in 1..P(i) |-> IntT(i.kinds[c], lo[c], hi[c], start[c])],
      \* where the answer is for the search, which may lie outside of the box
      solint |-> IF RSign(i.box[1]) > 0 /\ RSign(i.box[2]) > 0
                 THEN [c \in 1..P(i) |-> IntT(i.kinds[c], lo[c], hi[c], sol[c])] ELSE <<>>,
      back |-> [c \in 1..P(i) |-> ExtT(i.kinds[c], lo[c], hi[c], <<"var", "x">>)]]
Init == inp \in {i \in Cases : Ok(i)} /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp /\ out' = <<Answer(inp)>>
Done == out # <<>>
\* the exact solution is a stationary point, so nothing is better
Stationary == (Done /\ ~out[1].singular) =>
  \A c \in 1..P(inp) :
    RSum([r \in 1..Rows(inp) |-> RMul(RI(inp.mat[1][r][c]), Resid(inp.mat[1], inp.mat[2], out[1].sol, r))]) = RZero
StartInBox == Done => \A c \in 1..P(inp) : RLe(out[1].lo[c], out[1].start[c]) /\ RLe(out[1].start[c], out[1].hi[c])
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
