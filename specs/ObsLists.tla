------------------------------ MODULE ObsLists ------------------------------
(* Epoch lists and a band list of observations: type-checked growth,          *)
(* assignment, normalisation to the band/epoch form, and s/n sums.            *)
(* Observation i has image Img[i]; its weight is pattern wt[i].               *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Img,        \* sequence of images (sequences of integers)
          WtPats,     \* sequence of weight patterns
          NL,         \* number of epoch lists
          MaxEpoch, MaxBand,
          WrongL, WrongM, \* names of wrong members for epoch list / band list
          Sums        \* whether members have s/n sums

VARIABLES lists, mb, wt, act
vars == <<lists, mb, wt, act>>
View == <<lists, mb, wt>>

Obs == 1..Len(Img)
A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]

Init == /\ lists = [l \in 1..NL |-> <<>>]
        /\ mb = <<>>
        /\ wt = [o \in Obs |-> 1]
        /\ act = A("construct", <<>>, TRUE)

Same == UNCHANGED <<lists, mb, wt>>

AppendL(l, o) == /\ Len(lists[l]) < MaxEpoch
                 /\ lists' = [lists EXCEPT ![l] = Append(@, o)]
                 /\ UNCHANGED <<mb, wt>>
                 /\ act' = A("append_list", <<l, o>>, TRUE)
SetL(l, i, o) == /\ i \in 1..Len(lists[l])
                 /\ lists' = [lists EXCEPT ![l][i] = o]
                 /\ UNCHANGED <<mb, wt>>
                 /\ act' = A("set_list", <<l, i, o>>, TRUE)
DropL(l) == /\ lists[l] # <<>>
            /\ lists' = [lists EXCEPT ![l] = SubSeq(@, 1, Len(@) - 1)]
            /\ UNCHANGED <<mb, wt>>
            /\ act' = A("pop_list", <<l>>, TRUE)
BadAppendL(l, x) == Same /\ act' = A("append_list_wrong", <<l, x>>, FALSE)
BadSetL(l, i, x) == i \in 1..Len(lists[l]) /\ Same
                    /\ act' = A("set_list_wrong", <<l, i, x>>, FALSE)
(* an index outside the list is refused *)
BadIndexL(l, o) == Same /\ act' = A("set_list", <<l, Len(lists[l]) + 1, o>>, FALSE)

AppendM(l) == /\ Len(mb) < MaxBand
              /\ mb' = Append(mb, l) /\ UNCHANGED <<lists, wt>>
              /\ act' = A("append_mb", <<l>>, TRUE)
SetM(i, l) == /\ i \in 1..Len(mb)
              /\ mb' = [mb EXCEPT ![i] = l] /\ UNCHANGED <<lists, wt>>
              /\ act' = A("set_mb", <<i, l>>, TRUE)
BadAppendM(x) == Same /\ act' = A("append_mb_wrong", <<x>>, FALSE)
BadSetM(i, x) == i \in 1..Len(mb) /\ Same
                 /\ act' = A("set_mb_wrong", <<i, x>>, FALSE)

SetWeight(o, w) == /\ Sums
                   /\ wt' = [wt EXCEPT ![o] = w] /\ UNCHANGED <<lists, mb>>
                   /\ act' = A("set_weight", <<o, w>>, TRUE)

(* normalisation: the band/epoch form of a single member, an epoch list, or   *)
(* the band list itself                                                        *)
NormO(o) == <<(<<o>>)>>
NormL(l) == <<lists[l]>>
NormM == [b \in 1..Len(mb) |-> lists[mb[b]]]
Normalise(k, x) ==
  /\ Same
  /\ act' = A("normalise", <<k, x,
                  IF k = "obs" THEN NormO(x)
                  ELSE IF k = "list" THEN NormL(x) ELSE NormM>>, TRUE)
BadNormalise(x) == Same /\ act' = A("normalise_wrong", <<x>>, FALSE)

Next ==
  \/ \E l \in 1..NL :
       \/ \E o \in Obs : AppendL(l, o) \/ BadIndexL(l, o)
                         \/ \E i \in 1..MaxEpoch : SetL(l, i, o)
       \/ DropL(l)
       \/ \E x \in WrongL : BadAppendL(l, x) \/ \E i \in 1..MaxEpoch : BadSetL(l, i, x)
       \/ AppendM(l)
       \/ \E i \in 1..MaxBand : SetM(i, l)
       \/ Normalise("list", l)
  \/ \E x \in WrongM : BadAppendM(x) \/ \E i \in 1..MaxBand : BadSetM(i, x)
  \/ \E o \in Obs : Normalise("obs", o) \/ \E w \in 1..Len(WtPats) : SetWeight(o, w)
  \/ Normalise("mb", 0)
  \/ \E x \in {"int", "none", "list", "other"} : BadNormalise(x)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* sums over the positive-weight pixels *)
RECURSIVE PixSum(_, _, _)
PixSum(im, w, k) ==
  IF k = 0 THEN [i |-> 0, v |-> RZero, n |-> 0]
  ELSE LET r == PixSum(im, w, k - 1)
       IN IF w[k] > 0
          THEN [i |-> r.i + im[k], v |-> RAdd(r.v, Q(1, w[k])), n |-> r.n + 1]
          ELSE r
(* constant level: evaluated once *)
SumTab == [o \in Obs |-> [w \in 1..Len(WtPats) |->
                             PixSum(Img[o], WtPats[w], Len(Img[o]))]]
OSum(o) == SumTab[o][wt[o]]
Plus(x, y) == [i |-> x.i + y.i, v |-> RAdd(x.v, y.v), n |-> x.n + y.n]
Nil == [i |-> 0, v |-> RZero, n |-> 0]
RECURSIVE LSum(_)
LSum(s) == IF s = <<>> THEN Nil ELSE Plus(OSum(Head(s)), LSum(Tail(s)))
RECURSIVE MSum(_)
MSum(s) == IF s = <<>> THEN Nil ELSE Plus(LSum(lists[Head(s)]), MSum(Tail(s)))

S2N(x) == IF x.n = 0 THEN RI(-9999) ELSE TDiv(RI(x.i), TSqrt(x.v))
Out(x) == [i |-> x.i, v |-> x.v, n |-> x.n, s2n |-> S2N(x)]

(* every member of every container is of the kind it may hold *)
TypeOK == /\ \A l \in 1..NL : \A k \in 1..Len(lists[l]) : lists[l][k] \in Obs
          /\ \A b \in 1..Len(mb) : mb[b] \in 1..NL
(* the sums of a container are those of its flattening *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE lists[Head(s)] \o Flat(Tail(s))
Additive == MSum(mb) = LSum(Flat(mb))
RejectedUnchanged == [][~act'.ok => UNCHANGED View]_vars

Proj(ls, m, w) == [lists |-> ls, mb |-> m, wt |-> w]
AllSums == IF Sums
           THEN [o |-> [o \in Obs |-> Out(OSum(o))],
                 l |-> [l \in 1..NL |-> Out(LSum(lists[l]))],
                 m |-> Out(MSum(mb))]
           ELSE <<>>
Emit == PrintT(ToJson([f |-> Proj(lists, mb, wt), a |-> act',
                       t |-> Proj(lists', mb', wt'), x |-> [sums |-> AllSums]]))
=============================================================================
