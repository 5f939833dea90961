------------------------------- MODULE Shapes -------------------------------
(* Shapes (reduced shears) as complex numbers in the unit disk: setting,      *)
(* shearing, rotating, copying, with exact rational arithmetic.               *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Start,     \* set of <<g1, g2>> in the disk
          Sets,      \* set of <<g1, g2>>, some outside
          Shears,    \* set of <<s1, s2>>, some outside
          Turns,     \* set of <<c, s>> with c^2 + s^2 = 1: twice the angle
          Ops, MaxEdits, MaxNum

VARIABLES sh, edits, act
vars == <<sh, edits, act>>
Regs == {1, 2}

Norm2(g) == RAdd(RSq(g[1]), RSq(g[2]))
InDisk(g) == RLt(Norm2(g), ROne)

\* complex arithmetic
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])),
                RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
Conj(a) == <<a[1], RNeg(a[2])>>
CNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
CDiv(a, b) == LET n == CMul(a, Conj(b)) IN <<RDiv(n[1], Norm2(b)), RDiv(n[2], Norm2(b))>>
COne == <<ROne, RZero>>
\* the addition rule
Sheared(g, s) == CDiv(CAdd(g, s), CAdd(COne, CMul(Conj(s), g)))
CanShear(g, s) == CAdd(COne, CMul(Conj(s), g)) # <<RZero, RZero>>
\* rotation multiplies by exp(-2 i theta)
Rotated(g, t) == CMul(g, Conj(t))

RoundFactor(g) == RDiv(RSub(ROne, Norm2(g)), RAdd(ROne, Norm2(g)))
E(g) == LET f == RDiv(RI(2), RAdd(ROne, Norm2(g))) IN <<RMul(f, g[1]), RMul(f, g[2])>>
\* second moments of unit size: <<irr, irc, icc>>
Mom(g) == <<RDiv(RSub(ROne, E(g)[1]), RI(2)), RDiv(E(g)[2], RI(2)), RDiv(RAdd(ROne, E(g)[1]), RI(2))>>
\* a shear acts on the coordinates; sizes grow so that the round size stays
ShearMom(m, s) ==      \* S C S^T / det S with S = [[1+s1, s2], [s2, 1-s1]] on (x, y)
  LET a == RAdd(ROne, s[1])
      b == s[2]
      d == RSub(ROne, s[1])
      xx == m[3]
      xy == m[2]
      yy == m[1]
      det == RSub(ROne, Norm2(s))
      nxx == RSum(<<RMul(RSq(a), xx), RMul(RI(2), RMul(RMul(a, b), xy)), RMul(RSq(b), yy)>>)
      nyy == RSum(<<RMul(RSq(b), xx), RMul(RI(2), RMul(RMul(b, d), xy)), RMul(RSq(d), yy)>>)
      nxy == RSum(<<RMul(RMul(a, b), xx), RMul(RAdd(RMul(a, d), RSq(b)), xy), RMul(RMul(b, d), yy)>>)
  IN <<RDiv(nyy, det), RDiv(nxy, det), RDiv(nxx, det)>>

Big(x) == RAbsI(x[1]) > MaxNum \/ x[2] > MaxNum
Tame(g) == ~Big(g[1]) /\ ~Big(g[2])
\* TLC's integers end at 2^31: laws are evaluated where their terms fit
Den(g) == LET a == g[1][2]
              b == g[2][2]
              c == a \div RGcd(a, b)
          IN IF c > 30000 \/ b > 30000 \div c THEN 30001 ELSE c * b
Small(g, h, k) == k > 0 /\ Den(g) <= k /\ Den(h) <= k \div Den(g)

A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]
Init == /\ \E a, b \in Start : sh = <<a, b>>
        /\ edits = 0
        /\ act = A("init", <<>>, TRUE)
CanEdit == edits < MaxEdits
Put(t, g) == sh' = [sh EXCEPT ![t] = g] /\ edits' = edits + 1
\* the outcome is accepted exactly inside the disk
Try(op, args, t, g) ==
  /\ Tame(g)
  /\ IF InDisk(g) THEN Put(t, g) /\ act' = A(op, args, TRUE)
                  ELSE UNCHANGED <<sh, edits>> /\ act' = A(op, args, FALSE)

Set(r, g) == CanEdit /\ Try("set", <<r, g>>, r, g)
New(r, g) == CanEdit /\ Try("new", <<r, g>>, r, g)
Shear(r, s, t) == CanEdit /\ Small(sh[r], s, 12000) /\ CanShear(sh[r], s) /\ Try("shear", <<r, s, t>>, t, Sheared(sh[r], s))
ShearBy(r, o, t) == CanEdit /\ Small(sh[r], sh[o], 12000) /\ Try("shear_by", <<r, o, t>>, t, Sheared(sh[r], sh[o]))
ShearHalf(r) == act' = A("shear_half", <<r>>, FALSE) /\ UNCHANGED <<sh, edits>>
Rotate(r, c) == CanEdit /\ Small(sh[r], c, 12000) /\ Try("rotate", <<r, c>>, r, Rotated(sh[r], c))
GetRotated(r, c, t) == CanEdit /\ Small(sh[r], c, 12000) /\ Try("get_rotated", <<r, c, t>>, t, Rotated(sh[r], c))
Neg(r, t) == CanEdit /\ Try("neg", <<r, t>>, t, CNeg(sh[r]))
Copy(r, t, h) == CanEdit /\ Try("copy", <<r, t, h>>, t, sh[r])
Eval == act' = A("eval", <<>>, TRUE) /\ UNCHANGED <<sh, edits>>

Next ==
  \/ "set" \in Ops /\ \E r \in Regs, g \in Sets: Set(r, g) \/ New(r, g)
  \/ "shear" \in Ops /\ \E r, t \in Regs, s \in Shears: Shear(r, s, t)
  \/ "shear_by" \in Ops /\ \E r, o, t \in Regs: ShearBy(r, o, t)
  \/ "shear" \in Ops /\ \E r \in Regs: ShearHalf(r)
  \/ "rotate" \in Ops /\ \E r, t \in Regs, c \in Turns: Rotate(r, c) \/ GetRotated(r, c, t)
  \/ "neg" \in Ops /\ \E r, t \in Regs: Neg(r, t)
  \/ "copy" \in Ops /\ \E r, t \in Regs, h \in {"copy", "copy.copy", "deepcopy"}: Copy(r, t, h)
  \/ Eval

(* ---- properties ---- *)
Inside == \A r \in Regs: InDisk(sh[r])
ZeroLaw == \A r \in Regs: Sheared(sh[r], <<RZero, RZero>>) = sh[r]
                           /\ Sheared(<<RZero, RZero>>, sh[r]) = sh[r]
Undo == \A r, o \in Regs: Small(sh[r], sh[o], 12000) =>
             LET x == Sheared(sh[r], sh[o])
             IN Small(x, sh[o], 12000) => Sheared(x, CNeg(sh[o])) = sh[r]
StaysInside == \A r, o \in Regs: Small(sh[r], sh[o], 100) => InDisk(Sheared(sh[r], sh[o]))
RotationLaw == \A r \in Regs: \A c \in Turns: Small(sh[r], c, 12000) => Norm2(Rotated(sh[r], c)) = Norm2(sh[r])
\* turning both shape and shear turns the result
Equivariant == \A r, o \in Regs: \A c \in Turns:
   (Small(sh[r], sh[o], 12000 \div (Den(c) * Den(c))) /\ Small(Sheared(sh[r], sh[o]), c, 12000)) =>
   Sheared(Rotated(sh[r], c), Rotated(sh[o], c)) = Rotated(Sheared(sh[r], sh[o]), c)
\* shearing the moments is shearing the shape
MomLaw == \A r, o \in Regs: Small(sh[r], sh[o], 100) =>
   LET m == ShearMom(Mom(sh[r]), sh[o])
       T == RAdd(m[1], m[3])
       g == Sheared(sh[r], sh[o])
   IN /\ RDiv(RSub(m[3], m[1]), T) = E(g)[1]
      /\ RDiv(RMul(RI(2), m[2]), T) = E(g)[2]
      /\ RMul(T, RoundFactor(g)) = RoundFactor(sh[r])
RefusedUnchanged == [][act'.ok = FALSE => UNCHANGED sh]_vars

View == <<sh, edits>>
Proj(s, e) == [sh |-> s, edits |-> e]
Derived(g, h) ==
  [e |-> E(g), round |-> RoundFactor(g), mom |-> Mom(g),
   small |-> Small(g, h, 2000),
   jac |-> IF Small(g, h, 2000) THEN
             LET n == Norm2(CAdd(COne, CMul(Conj(h), g)))
                 m == RSub(ROne, Norm2(h))
             IN TPow(TDiv(m, n), RI(2)) ELSE RZero,
   sheared |-> IF Small(g, h, 2000) THEN Sheared(g, h) ELSE <<RZero, RZero>>,
   shmom |-> IF Small(g, h, 2000) THEN ShearMom(Mom(g), h) ELSE <<RZero, RZero, RZero>>]
Emit == IF act'.op = "eval"
        THEN PrintT(ToJson([f |-> Proj(sh, edits), a |-> act', t |-> Proj(sh', edits'),
                            x |-> [d |-> <<Derived(sh[1], sh[2]), Derived(sh[2], sh[1])>>]]))
        ELSE PrintT(ToJson([f |-> Proj(sh, edits), a |-> act', t |-> Proj(sh', edits')]))
=============================================================================
