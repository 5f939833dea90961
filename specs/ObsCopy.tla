------------------------------- MODULE ObsCopy -------------------------------
(* Two registers A and B holding observations (or epoch/band lists ending in  *)
(* one): copying, editing either side afterwards, and equality.               *)
(* A part's value is a small number; 0 is "absent".                            *)
EXTENDS Integers, FiniteSets, TLC, Json

CONSTANTS Required,   \* [part |-> number of values], always present
          Optional,   \* [part |-> number of values], may be absent
          Options,    \* settings that are copied but not compared
          Nested,     \* parts that can be edited in place through a reference
          MaxOdd      \* bound: parts away from their default, both registers

VARIABLES a, b, hasb, act
vars == <<a, b, hasb, act>>
View == <<a, b, hasb>>

Req == DOMAIN Required
Opt == DOMAIN Optional
Set == DOMAIN Options
All == Req \cup Opt \cup Set

Default == [p \in All |-> IF p \in Opt THEN 0 ELSE 1]
Odd(x) == Cardinality({p \in All : x[p] # Default[p]})
Bounded == Odd(a) + (IF hasb THEN Odd(b) ELSE 0) <= MaxOdd

Hows == {"method", "copy", "deepcopy"}

Max(p) == IF p \in Req THEN Required[p]
          ELSE IF p \in Opt THEN Optional[p] ELSE Options[p]
Min(p) == IF p \in Opt THEN 0 ELSE 1

(* the copy has every part and setting of its source, and its own state *)
Copy(how) == /\ b' = a /\ hasb' = TRUE /\ UNCHANGED a
             /\ act' = [op |-> "copy", args |-> <<how>>]

SetPart(reg, p, v) ==
  /\ reg = "b" => hasb
  /\ v \in Min(p)..Max(p)
  /\ IF reg = "a" THEN a' = [a EXCEPT ![p] = v] /\ UNCHANGED b
                  ELSE b' = [b EXCEPT ![p] = v] /\ UNCHANGED a
  /\ UNCHANGED hasb
  /\ act' = [op |-> "set", args |-> <<reg, p, v>>]

(* edit the content of a part in place: value 1 becomes 2 in that register,   *)
(* and in that register only                                                  *)
EditInPlace(reg, p) ==
  /\ p \in Nested /\ Max(p) >= 2
  /\ reg = "b" => hasb
  /\ IF reg = "a" THEN a[p] = 1 /\ a' = [a EXCEPT ![p] = 2] /\ UNCHANGED b
                  ELSE b[p] = 1 /\ b' = [b EXCEPT ![p] = 2] /\ UNCHANGED a
  /\ UNCHANGED hasb
  /\ act' = [op |-> "edit", args |-> <<reg, p>>]

Init == a = Default /\ b = Default /\ hasb = FALSE
        /\ act = [op |-> "construct", args |-> <<>>]

Next == \/ \E how \in Hows : Copy(how)
        \/ \E reg \in {"a", "b"}, p \in All :
             \/ \E v \in Min(p)..Max(p) : SetPart(reg, p, v)
             \/ EditInPlace(reg, p)

Spec == Init /\ [][Next]_vars

Same(x, y) == \A p \in Req \cup Opt : x[p] = y[p]

-----------------------------------------------------------------------------
CopyIsEqual == [][act'.op = "copy" => Same(a', b')]_vars
(* an edit of one register is invisible in the other *)
Independent ==
  [][(act'.op \in {"set", "edit"} /\ act'.args[1] = "a") => b' = b]_vars
Independent2 ==
  [][(act'.op \in {"set", "edit"} /\ act'.args[1] = "b") => a' = a]_vars

Proj(x, y, h) == [a |-> x, b |-> y, hasb |-> h, eq |-> Same(x, y)]
Emit == PrintT(ToJson([f |-> Proj(a, b, hasb), a |-> act', t |-> Proj(a', b', hasb')]))
=============================================================================
