--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic: a rational is <<n, d>> with d > 0 in lowest      *)
(* terms.  TLC reports overflow rather than wrapping, so results are exact.    *)
EXTENDS Integers, Sequences

RAbsI(n) == IF n < 0 THEN -n ELSE n
RECURSIVE RGcd(_, _)
RGcd(m, n) == IF n = 0 THEN m ELSE RGcd(n, m % n)

RNorm(n, d) ==
  LET g == RGcd(RAbsI(n), RAbsI(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>

\* exact: RNorm(n, d) with n negative uses flooring on a multiple of g, exact

Q(n, d) == RNorm(n, d)
RI(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  LET g == RGcd(a[2], b[2])
  IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  LET x == RNorm(a[1], b[2])
      y == RNorm(b[1], a[2])
  IN IF a[1] = 0 \/ b[1] = 0 THEN RZero
     ELSE <<x[1] * y[1], x[2] * y[2]>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b) == RSign(RSub(a, b)) < 0
RLe(a, b) == RSign(RSub(a, b)) <= 0
RSq(a) == RMul(a, a)
RAbs(a) == <<RAbsI(a[1]), a[2]>>
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN ROne ELSE RMul(Head(s), RProd(Tail(s)))

(* terms: expressions the harness evaluates in real arithmetic *)
TSqrt(x) == <<"sqrt", x>>
TExp(x) == <<"exp", x>>
TLog(x) == <<"log", x>>
TAdd(x, y) == <<"add", x, y>>
TSub(x, y) == <<"sub", x, y>>
TMul(x, y) == <<"mul", x, y>>
TDiv(x, y) == <<"div", x, y>>
TNeg(x) == <<"neg", x>>
TSum(s) == <<"sum", s>>
TPi == <<"pi">>
TPow(x, y) == <<"pow", x, y>>
TNaN == <<"nan">>
TInf == <<"inf">>
TNInf == <<"-inf">>
==============================================================================
