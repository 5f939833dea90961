------------------------------- MODULE SkyFrame -------------------------------
(* The same scene seen through different pixel grids and sky coordinates.      *)
(* Grid operations relabel pixels and change the coordinate transform with     *)
(* them, so every pixel keeps its place on the sky; sky operations change the  *)
(* coordinates of the sky itself.  What follows for positions, sizes and       *)
(* shapes is derived here.                                                     *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Jac0,      \* <<dvdrow, dvdcol, dudrow, dudcol>>, rationals
          Off0,      \* centre, from the middle of the image: <<row, col>>
          Scales,    \* rationals
          Units,     \* powers of two the sky can be measured in
          Shifts,    \* pixel offsets <<row, col>> of the centre
          MaxOps,
          NR, NC     \* size of the grid checked here

VARIABLES fr, act
vars == <<fr, act>>

\* arguments evaluated once
The(S) == CHOOSE z \in S : TRUE
Add(p, q) == The({RAdd(x, y) : x \in {p}, y \in {q}})
Sub(p, q) == The({RSub(x, y) : x \in {p}, y \in {q}})
Mul(p, q) == The({RMul(x, y) : x \in {p}, y \in {q}})
Div(p, q) == The({RDiv(x, y) : x \in {p}, y \in {q}})
Sqr(p) == The({RMul(x, x) : x \in {p}})

Lin(m, x) == <<Add(Mul(m[1], x[1]), Mul(m[2], x[2])), Add(Mul(m[3], x[1]), Mul(m[4], x[2]))>>
MM(p, q) == <<Add(Mul(p[1], q[1]), Mul(p[2], q[3])), Add(Mul(p[1], q[2]), Mul(p[2], q[4])),
              Add(Mul(p[3], q[1]), Mul(p[4], q[3])), Add(Mul(p[3], q[2]), Mul(p[4], q[4]))>>
Det(m) == Sub(Mul(m[1], m[4]), Mul(m[2], m[3]))
VAdd(x, y) == <<Add(x[1], y[1]), Add(x[2], y[2])>>
VSub(x, y) == <<Sub(x[1], y[1]), Sub(x[2], y[2])>>
One == <<ROne, RZero, RZero, ROne>>
Diag(x, y) == <<x, RZero, RZero, y>>
Swap == <<RZero, ROne, ROne, RZero>>

\* image i[r][c], rows 1..nr
Ids == [r \in 1..NR |-> [c \in 1..NC |-> (r - 1) * NC + c]]
Tr(i) == [c \in 1..Len(i[1]) |-> [r \in 1..Len(i) |-> i[r][c]]]
FlipR(i) == [r \in 1..Len(i) |-> i[Len(i) + 1 - r]]
FlipC(i) == [r \in 1..Len(i) |-> [c \in 1..Len(i[1]) |-> i[r][Len(i[1]) + 1 - c]]]

Init == /\ fr = [ids |-> Ids, tr |-> FALSE, flr |-> FALSE, flc |-> FALSE, jac |-> Jac0, off |-> Off0,
                 sky |-> One, sh |-> <<RZero, RZero>>, pow |-> 0, turned |-> FALSE, scaled |-> FALSE, moved |-> FALSE, n |-> 0]
        /\ act = <<"start">>

More == fr.n < MaxOps
\* relabelling pixels
Transpose == fr' = [fr EXCEPT !.ids = Tr(fr.ids), !.tr = ~fr.tr, !.flr = fr.flc, !.flc = fr.flr,
                              !.jac = MM(fr.jac, Swap), !.off = <<fr.off[2], fr.off[1]>>, !.n = @ + 1]
FlipRows == fr' = [fr EXCEPT !.ids = FlipR(fr.ids), !.flr = ~fr.flr,
                             !.jac = MM(fr.jac, Diag(RI(-1), ROne)), !.off = <<RNeg(fr.off[1]), fr.off[2]>>, !.n = @ + 1]
FlipCols == fr' = [fr EXCEPT !.ids = FlipC(fr.ids), !.flc = ~fr.flc,
                             !.jac = MM(fr.jac, Diag(ROne, RI(-1))), !.off = <<fr.off[1], RNeg(fr.off[2])>>, !.n = @ + 1]
\* changing the sky coordinates by the matrix m
Sky(m) == [fr EXCEPT !.jac = MM(m, fr.jac), !.sky = MM(m, fr.sky), !.sh = Lin(m, fr.sh), !.n = @ + 1]
Turn == ~fr.turned /\ fr' = [Sky(<<Q(3, 5), Q(4, 5), Q(-4, 5), Q(3, 5)>>) EXCEPT !.turned = TRUE]
Quarter == fr' = Sky(<<RZero, ROne, RI(-1), RZero>>)
Mirror == fr' = Sky(Diag(ROne, RI(-1)))
Scale(k) == ~fr.scaled /\ fr' = [Sky(Diag(k, k)) EXCEPT !.scaled = TRUE]
\* another unit of the sky, far from the first: jac, sky and sh are in units of
\* two to the power pow, sizes in its square
Unit(p) == fr.pow = 0 /\ fr' = [fr EXCEPT !.pow = p, !.n = @ + 1]
\* moving the centre of the transform by d pixels
Move(d) == ~fr.moved /\ fr' = [fr EXCEPT !.off = VAdd(fr.off, d), !.sh = VSub(fr.sh, Lin(fr.jac, d)), !.moved = TRUE, !.n = @ + 1]

Next == More /\ \/ Transpose /\ act' = <<"transpose">>
                \/ FlipRows /\ act' = <<"fliprows">>
                \/ FlipCols /\ act' = <<"flipcols">>
                \/ Turn /\ act' = <<"turn">>
                \/ Quarter /\ act' = <<"quarter">>
                \/ Mirror /\ act' = <<"mirror">>
                \/ \E k \in Scales : Scale(k) /\ act' = <<"scale", k>>
                \/ \E p \in Units : Unit(p) /\ act' = <<"unit", p>>
                \/ \E d \in Shifts : Move(d) /\ act' = <<"move", d>>

Middle(n) == Q(n - 1, 2)
Place(i, jac, off, r, c) ==
  Lin(jac, <<Sub(Sub(RI(r - 1), Middle(Len(i))), off[1]), Sub(Sub(RI(c - 1), Middle(Len(i[1]))), off[2])>>)
\* every pixel is where it was, in the new coordinates
SamePlaces == \A r \in 1..Len(fr.ids), c \in 1..Len(fr.ids[1]) :
  LET id == fr.ids[r][c]
      r0 == ((id - 1) \div NC) + 1
      c0 == ((id - 1) % NC) + 1
  IN Place(fr.ids, fr.jac, fr.off, r, c) = VAdd(Lin(fr.sky, Place(Ids, Jac0, Off0, r0, c0)), fr.sh)
\* the relabelling is the one told by the flags
Relabelled == fr.ids = LET a == IF fr.tr THEN Tr(Ids) ELSE Ids
                           b == IF fr.flr THEN FlipR(a) ELSE a
                       IN IF fr.flc THEN FlipC(b) ELSE b
Similar == LET a == fr.sky IN /\ Add(Sqr(a[1]), Sqr(a[3])) = Add(Sqr(a[2]), Sqr(a[4]))
                              /\ Add(Mul(a[1], a[2]), Mul(a[3], a[4])) = RZero

\* sizes (second moments) scale with the square of the sky
K2 == RAbs(Det(fr.sky))
\* shapes: from the moments  vv = (1-e1)/2, uu = (1+e1)/2, vu = e2/2
Shape == LET a == fr.sky[1]
             b == fr.sky[2]
             c == fr.sky[3]
             d == fr.sky[4]
             h == Div(Q(1, 2), K2)
         IN <<Mul(h, Sub(Sub(Sqr(d), Sqr(b)), Sub(Sqr(c), Sqr(a)))), Div(Sub(Mul(c, d), Mul(a, b)), K2),
              Div(Sub(Mul(b, d), Mul(a, c)), K2), Div(Add(Mul(a, d), Mul(b, c)), K2)>>
\* round stays round: shapes turn (or are mirrored) and keep their length
RoundStays == /\ Add(Sub(Sqr(fr.sky[4]), Sqr(fr.sky[2])), Sub(Sqr(fr.sky[3]), Sqr(fr.sky[1]))) = RZero
              /\ Add(Sqr(Shape[1]), Sqr(Shape[3])) = ROne
              /\ Add(Sqr(Shape[2]), Sqr(Shape[4])) = ROne
              /\ Det(Shape) = (IF RSign(Det(fr.sky)) > 0 THEN ROne ELSE RI(-1))
\* a pixel covers as much of the sky, in the new measure
AreaScales == RAbs(Det(fr.jac)) = Mul(K2, RAbs(Det(Jac0)))

View == [fr EXCEPT !.n = 0]
Emit == PrintT(ToJson([act |-> act', tr |-> fr'.tr, flr |-> fr'.flr, flc |-> fr'.flc, jac |-> fr'.jac, off |-> fr'.off,
                       sky |-> fr'.sky, sh |-> fr'.sh, pow |-> fr'.pow, turned |-> fr'.turned, scaled |-> fr'.scaled, moved |-> fr'.moved,
                       k2 |-> K2', shape |-> Shape']))
===============================================================================
