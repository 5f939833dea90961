------------------------------ MODULE GMixNamed ------------------------------
(* Mixtures made from a profile's parameters, held in registers.  Whatever    *)
(* was done before, filling one determines it completely, together with the   *)
(* structure it was constructed with; a copy has the structure of its source. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Regs, Structs, Fills, Fluxes, Cens, Shears, Hows, Evals, MaxOdd

VARIABLES reg, act
vars == <<reg, act>>
View == reg
Filled(s, k) == [s |-> s, k |-> k, f |-> 0, c |-> 0, g |-> 0]
B(b) == IF b THEN 1 ELSE 0
Odd(x) == B(x.f # 0) + B(x.c # 0) + B(x.g # 0)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN Odd(reg[r]) + Total(S \ {r})
Bounded == Total(Regs) <= MaxOdd
A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]

Init == /\ reg \in [Regs -> {Filled(s, 1) : s \in Structs}]
        /\ act = A("start", <<>>, TRUE)
Fill(r, k) == reg' = [reg EXCEPT ![r] = Filled(@.s, k)] /\ act' = A("fill", <<r, k>>, TRUE)
BadFill(r, w) == UNCHANGED reg /\ act' = A("badfill", <<r, w>>, FALSE)
SetFlux(r, f) == reg' = [reg EXCEPT ![r].f = f] /\ act' = A("set_flux", <<r, f>>, TRUE)
SetCen(r, c) == reg' = [reg EXCEPT ![r].c = c] /\ act' = A("set_cen", <<r, c>>, TRUE)
Shear(r, t, g) == /\ reg[r].g = 0
                  /\ reg' = [reg EXCEPT ![t] = [reg[r] EXCEPT !.g = g]]
                  /\ act' = A("shear", <<r, t, g>>, TRUE)
Copy(r, t, how) == reg' = [reg EXCEPT ![t] = reg[r]] /\ act' = A("copy", <<r, t, how>>, TRUE)
Eval(r, e) == UNCHANGED reg /\ act' = A("eval", <<r, e>>, TRUE)
Next == \E r \in Regs :
  \/ \E k \in Fills : Fill(r, k)
  \/ \E w \in {"long", "short", "shape"} : BadFill(r, w)
  \/ \E f \in Fluxes : SetFlux(r, f)
  \/ \E c \in Cens : SetCen(r, c)
  \/ \E e \in Evals : Eval(r, e)
  \/ \E t \in Regs : \/ \E g \in Shears : Shear(r, t, g)
                     \/ \E h \in Hows : Copy(r, t, h)
Spec == Init /\ [][Next]_vars

FillDetermines == [][act'.op = "fill" =>
  LET r == act'.args[1] IN reg'[r] = Filled(reg[r].s, act'.args[2])]_vars
StructureMoves == [][act'.op \in {"copy", "shear"} =>
  reg'[act'.args[2]].s = reg[act'.args[1]].s]_vars
OthersUntouched == [][\A r \in Regs : reg'[r] # reg[r] =>
  (Len(act'.args) > 0 /\ r \in {act'.args[1]} \cup (IF act'.op \in {"copy", "shear"} THEN {act'.args[2]} ELSE {}))]_vars
RefusedUnchanged == [][~act'.ok => reg' = reg]_vars
Emit == PrintT(ToJson([f |-> reg, a |-> act', t |-> reg']))
==============================================================================
