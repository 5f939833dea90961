-------------------------------- MODULE Meds ---------------------------------
(* Reading observations from a catalogue of cutouts.  A file holds objects,   *)
(* every object its cutouts; a cutout is told apart by band, object and       *)
(* number, so what is read can be traced to where it was stored.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sets,      \* set of sequences (bands) of files
          Queries    \* [kind, wt, objs, cut]

\* file: [objs: <<[id, cuts: <<[kinds of weight which vanish, psf vanishes]>>]>>, has: optional kinds,
\*        psf, cols: optional columns]
VARIABLES inp, out
vars == <<inp, out>>

Types == {"weight", "uberseg", "cweight", "cseg", "cseg-canonical"}
Optional == {"bmask", "ormask", "noise", "mfrac"}

\* how each type of weight is asked for
How(wt) == CASE wt = "weight" -> <<"cutout", "weight">>
             [] wt = "uberseg" -> <<"uberseg">>
             [] wt = "cweight" -> <<"cweight", "inside">>
             [] wt = "cseg" -> <<"cseg", "object">>
             [] wt = "cseg-canonical" -> <<"cseg", "middle">>

\* what the observation of a cutout is made of
Obs(fs, b, o, c, wt) ==
  LET f == fs[b] IN
  [from |-> <<b, o, c>>, weight |-> How(wt), with |-> f.has, psf |-> f.psf,
   flux |-> "flux_auto" \in f.cols,
   T |-> {"x2", "y2"} \subseteq f.cols,
   number |-> "number" \in f.cols]
\* a cutout without weight is not an observation
Empty(fs, b, o, c, wt) == wt \in fs[b].objs[o].cuts[c].zero
Kept(fs, b, o, wt) == SelectSeq([c \in 1..Len(fs[b].objs[o].cuts) |-> c], LAMBDA c : ~Empty(fs, b, o, c, wt))
List(fs, b, o, wt) ==
  LET k == Kept(fs, b, o, wt)
      has == k # <<>>
  IN [obs |-> [i \in 1..Len(k) |-> Obs(fs, b, o, k[i], wt)],
      flux |-> IF has /\ "flux_auto" \in fs[b].cols THEN <<b, o>> ELSE <<>>,
      T |-> IF has /\ {"x2", "y2"} \subseteq fs[b].cols THEN <<b, o>> ELSE <<>>]
Mb(fs, o, wt) == [b \in 1..Len(fs) |-> List(fs, b, o, wt)]
All(fs) == [o \in 1..Len(fs[1].objs) |-> o]

Answer(fs, qy) ==
  CASE qy.wt \notin Types -> [ok |-> FALSE, why |-> "type", mbs |-> <<>>]
    [] qy.kind = "obs" /\ Empty(fs, 1, qy.objs[1], qy.cut, qy.wt) -> [ok |-> FALSE, why |-> "weight", mbs |-> <<>>]
    [] qy.kind = "obs" -> [ok |-> TRUE, why |-> "",
         mbs |-> <<<<[obs |-> <<Obs(fs, 1, qy.objs[1], qy.cut, qy.wt)>>, flux |-> <<>>, T |-> <<>>]>>>>]
    [] qy.kind = "list" -> [ok |-> TRUE, why |-> "", mbs |-> <<<<List(fs, 1, qy.objs[1], qy.wt)>>>>]
    [] qy.kind = "mb" -> [ok |-> TRUE, why |-> "", mbs |-> <<Mb(fs, qy.objs[1], qy.wt)>>]
    [] qy.kind = "some" -> [ok |-> TRUE, why |-> "", mbs |-> [i \in 1..Len(qy.objs) |-> Mb(fs, qy.objs[i], qy.wt)]]
    [] qy.kind = "all" -> [ok |-> TRUE, why |-> "", mbs |-> [i \in 1..Len(All(fs)) |-> Mb(fs, i, qy.wt)]]

Fits(fs, qy) == /\ \A i \in 1..Len(qy.objs) : \A b \in 1..Len(fs) : qy.objs[i] <= Len(fs[b].objs)
                /\ qy.kind = "obs" => qy.cut <= Len(fs[1].objs[qy.objs[1]].cuts)
                /\ (qy.kind = "list" /\ qy.wt \notin Types) => fs[1].objs[qy.objs[1]].cuts # <<>>
                /\ (qy.kind \in {"mb", "some", "all"} /\ qy.wt \notin Types) =>
                      \E b \in 1..Len(fs), o \in 1..Len(fs[1].objs) :
                         (qy.kind = "all" \/ o \in {qy.objs[i] : i \in 1..Len(qy.objs)}) /\ fs[b].objs[o].cuts # <<>>

Init == /\ inp \in [fs : Sets, qy : Queries]
        /\ Fits(inp.fs, inp.qy)
        /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp.fs, inp.qy)>> /\ UNCHANGED inp

Done == out # <<>> /\ out[1].ok
Lists == {<<i, b>> \in (1..Len(out[1].mbs)) \X (1..4) : b <= Len(out[1].mbs[i])}
L(p) == out[1].mbs[p[1]][p[2]]
\* bands and objects are never mixed, cutouts keep their order and come once
Apart == Done => \A p \in Lists : \A i \in 1..Len(L(p).obs) :
   /\ L(p).obs[i].from[1] = p[2]
   /\ \A j \in 1..Len(L(p).obs) : /\ L(p).obs[i].from[2] = L(p).obs[j].from[2]
                                  /\ i < j => L(p).obs[i].from[3] < L(p).obs[j].from[3]
\* nothing without weight, and nothing with weight left out
Weighted == Done => \A p \in Lists : \A i \in 1..Len(L(p).obs) :
   LET f == L(p).obs[i].from IN ~Empty(inp.fs, f[1], f[2], f[3], inp.qy.wt)
NoneLost == (Done /\ inp.qy.kind # "obs") => \A p \in Lists :
   LET o == IF inp.qy.kind = "all" THEN p[1] ELSE inp.qy.objs[p[1]]
   IN Len(L(p).obs) = Cardinality({c \in 1..Len(inp.fs[p[2]].objs[o].cuts) : ~Empty(inp.fs, p[2], o, c, inp.qy.wt)})
EveryBand == (Done /\ inp.qy.kind \in {"mb", "some", "all"}) => \A i \in 1..Len(out[1].mbs) : Len(out[1].mbs[i]) = Len(inp.fs)
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
===============================================================================
