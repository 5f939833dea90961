------------------------------ MODULE Jacobian ------------------------------
(* Affine pixel-to-sky transforms: construction in every convention,          *)
(* recentring, copying, and what the maps must then give, as exact rationals. *)
(* A transform is <<row0, col0, dvdrow, dvdcol, dudrow, dudcol>>.             *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mats,      \* sequence of <<dvdrow, dvdcol, dudrow, dudcol>>
          Scales,    \* sequence of rationals, for the diagonal constructors
          Cens,      \* sequence of <<row, col>>
          Points,    \* sequence of <<a, b>>, used as pixels and as sky positions
          Ops, MaxEdits

VARIABLES jac, edits, act
vars == <<jac, edits, act>>
Regs == {1, 2}

Det(j) == RSub(RMul(j[3], j[6]), RMul(j[4], j[5]))
Area(j) == RAbs(Det(j))
VU(j, p) ==
  LET dr == RSub(p[1], j[1])
      dc == RSub(p[2], j[2])
  IN <<RAdd(RMul(j[3], dr), RMul(j[4], dc)), RAdd(RMul(j[5], dr), RMul(j[6], dc))>>
\* Cramer's rule
RowCol(j, s) ==
  LET d == Det(j)
  IN <<RAdd(j[1], RDiv(RSub(RMul(j[6], s[1]), RMul(j[4], s[2])), d)),
       RAdd(j[2], RDiv(RSub(RMul(j[3], s[2]), RMul(j[5], s[1])), d))>>

NonSing(j) == Det(j) # RZero
General == {"rowcol", "xy", "wcs_rowcol", "wcs_xy", "galsim_rowcol", "galsim_xy"}
Build(c, m) == c \o m
Diag(c, s) == c \o <<s, RZero, RZero, s>>
IndM == {k \in 1..Len(Mats) : NonSing(Build(Cens[1], Mats[k]))}

A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]

Init ==
  /\ \E m1 \in IndM, m2 \in {CHOOSE k \in IndM : TRUE}, c \in 1..Len(Cens):
        jac = <<Build(Cens[c], Mats[m1]), Build(Cens[1], Mats[m2])>>
  /\ edits = 0
  /\ act = A("init", <<>>, TRUE)

Put(r, j) == jac' = [jac EXCEPT ![r] = j] /\ edits' = edits + 1
CanEdit == edits < MaxEdits

Make(r, how, c, m) ==
  /\ CanEdit
  /\ Put(r, Build(Cens[c], Mats[m]))
  /\ act' = A("make", <<r, how, Cens[c], Mats[m]>>, TRUE)
MakeDiag(r, how, c, s) ==
  /\ CanEdit
  /\ Put(r, Diag(Cens[c], IF how \in {"unit_rowcol", "unit_xy", "default_scale"}
                          THEN ROne ELSE Scales[s]))
  /\ act' = A("make_diag", <<r, how, Cens[c], Scales[s]>>, TRUE)
\* a constructor that is not told everything refuses
MakeBad(how) ==
  /\ act' = A("make_bad", <<how>>, FALSE)
  /\ UNCHANGED <<jac, edits>>
SetCen(r, how, c) ==
  /\ CanEdit
  /\ Put(r, <<Cens[c][1], Cens[c][2], jac[r][3], jac[r][4], jac[r][5], jac[r][6]>>)
  /\ act' = A("set_cen", <<r, how, Cens[c]>>, TRUE)
\* half of a centre is refused and nothing moves
SetCenBad(r, how) ==
  /\ act' = A("set_cen_bad", <<r, how>>, FALSE)
  /\ UNCHANGED <<jac, edits>>
Copy(r, t, how) ==
  /\ CanEdit
  /\ Put(t, jac[r])
  /\ act' = A("copy", <<r, t, how>>, TRUE)
\* by way of galsim, which keeps the matrix but not the centre
Export(r, t, c) ==
  /\ CanEdit
  /\ Put(t, <<Cens[c][1], Cens[c][2], jac[r][3], jac[r][4], jac[r][5], jac[r][6]>>)
  /\ act' = A("export", <<r, t, Cens[c]>>, TRUE)
Eval(r) ==
  /\ act' = A("eval", <<r>>, TRUE)
  /\ UNCHANGED <<jac, edits>>

Next ==
  \/ "make" \in Ops /\ \E r \in Regs, h \in General, c \in 1..Len(Cens), m \in IndM: Make(r, h, c, m)
  \/ "diag" \in Ops /\ \E r \in Regs, c \in 1..Len(Cens), s \in 1..Len(Scales),
        h \in {"diag_rowcol", "diag_xy", "unit_rowcol", "unit_xy", "default_scale"}: MakeDiag(r, h, c, s)
  \/ "bad" \in Ops /\ \E h \in {"nothing", "no_cen", "no_dvdrow", "no_dudcol", "no_dudx", "no_dvdy",
        "no_col", "no_y", "diag_nothing", "diag_no_col", "diag_no_y", "mixed"}: MakeBad(h)
  \/ "bad" \in Ops /\ \E r \in Regs, h \in {"nothing", "row", "col", "x", "y"}: SetCenBad(r, h)
  \/ "set_cen" \in Ops /\ \E r \in Regs, h \in {"rowcol", "xy"}, c \in 1..Len(Cens): SetCen(r, h, c)
  \/ "copy" \in Ops /\ \E r, t \in Regs, h \in {"copy", "copy.copy", "deepcopy", "deepcopy_in_list"}: Copy(r, t, h)
  \/ "export" \in Ops /\ \E r, t \in Regs, c \in 1..Len(Cens): Export(r, t, c)
  \/ \E r \in Regs: Eval(r)

(* ---- properties ---- *)
\* the two maps undo each other and the centre is the origin of the sky
Inverse == \A r \in Regs: \A k \in 1..Len(Points):
   /\ RowCol(jac[r], VU(jac[r], Points[k])) = Points[k]
   /\ VU(jac[r], RowCol(jac[r], Points[k])) = Points[k]
Origin == \A r \in Regs: VU(jac[r], <<jac[r][1], jac[r][2]>>) = <<RZero, RZero>>
\* the map is affine: midpoints go to midpoints
Affine == \A r \in Regs: \A a \in 1..1, b \in 1..Len(Points):
   LET mid(x, y) == <<RDiv(RAdd(x[1], y[1]), RI(2)), RDiv(RAdd(x[2], y[2]), RI(2))>>
   IN VU(jac[r], mid(Points[a], Points[b])) = mid(VU(jac[r], Points[a]), VU(jac[r], Points[b]))
\* the area is that of the image of a unit square
AreaLaw == \A r \in Regs:
   LET o == VU(jac[r], <<RZero, RZero>>)
       d == VU(jac[r], <<ROne, RZero>>)
       e == VU(jac[r], <<RZero, ROne>>)
   IN Area(jac[r]) = RAbs(RSub(RMul(RSub(d[1], o[1]), RSub(e[2], o[2])),
                               RMul(RSub(d[2], o[2]), RSub(e[1], o[1]))))
CenOnly == [][act'.op = "set_cen" =>
   LET r == act'.args[1] IN
   /\ SubSeq(jac'[r], 3, 6) = SubSeq(jac[r], 3, 6)
   /\ jac'[3 - r] = jac[3 - r]]_vars
RefusedUnchanged == [][act'.ok = FALSE => UNCHANGED jac]_vars
CopyEqual == [][act'.op = "copy" => jac'[act'.args[1]] = jac'[act'.args[2]]
                                    /\ jac'[act'.args[1]] = jac[act'.args[1]]]_vars

View == <<jac, edits>>
Proj(j, e) == [jac |-> j, edits |-> e]
Derived(j) == [det |-> Det(j), area |-> Area(j),
               vu |-> [k \in 1..Len(Points) |-> VU(j, Points[k])],
               rc |-> [k \in 1..Len(Points) |-> RowCol(j, Points[k])]]
Emit == IF act'.op = "eval" /\ act'.args = <<1>>
        THEN PrintT(ToJson([f |-> Proj(jac, edits), a |-> act', t |-> Proj(jac', edits'),
                            x |-> [d |-> [r \in Regs |-> Derived(jac[r])],
                                   same |-> jac[1] = jac[2]]]))
        ELSE PrintT(ToJson([f |-> Proj(jac, edits), a |-> act', t |-> Proj(jac', edits')]))
=============================================================================
