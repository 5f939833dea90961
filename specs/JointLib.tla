------------------------------ MODULE JointLib -------------------------------
(* How the joint priors of fits are laid out: a list of groups, each a prior  *)
(* of its own on one parameter or a pair, in the order of the parameters.     *)
EXTENDS PriorLib

Middle(k) ==         \* between the shape and the fluxes
  CASE k \in {"simple", "galsim"} -> <<"T">>
    [] k = "bd" -> <<"T", "logTratio", "fracdev">>
    [] k = "bdf" -> <<"T", "fracdev">>
    [] k = "spergel" -> <<"r50", "nu">>
    [] k = "coellip" -> <<"T">>
G(name, at, prior) == [name |-> name, at |-> at, kind |-> prior[1], p |-> prior[2]]
Pick(pool, i, j) == pool[((j * 3 + i.rot) % Len(pool)) + 1]
\* <<name, which prior>> for every parameter after the shape
Slots(i) ==
  LET m == Middle(i.kind)
      rep(s, which, count) == [c \in 1..count |-> <<s, which>>]
  IN IF i.kind = "coellip"
     THEN rep("T", 1, i.n) \o rep("F1", 2, i.n)
     ELSE [c \in 1..Len(m) |-> <<m[c], c>>]
          \o [c \in 1..i.n |-> <<<<"F1", "F2", "F3">>[c], Len(m) + c>>]
RECURSIVE GroupsFrom(_, _, _, _)
GroupsFrom(pool, i, k, acc) ==
  IF k > Len(Slots(i)) THEN acc
  ELSE GroupsFrom(pool, i, k + 1,
                  Append(acc, G(Slots(i)[k][1], <<4 + k>>, Pick(pool, i, Slots(i)[k][2]))))
GroupsIn(pool, i) == <<G("cen", <<1, 2>>, <<"cen", i.cen>>), G("g", <<3, 4>>, <<"ba", i.ba>>)>>
                     \o GroupsFrom(pool, i, 1, <<>>)
NPars(i) == 4 + Len(Slots(i))
RECURSIVE FlatFrom(_, _, _)
FlatFrom(ss, k, acc) == IF k > Len(ss) THEN acc ELSE FlatFrom(ss, k + 1, acc \o ss[k])
Flat2(ss) == FlatFrom(ss, 1, <<>>)
==============================================================================
