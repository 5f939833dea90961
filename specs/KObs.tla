--------------------------------- MODULE KObs ---------------------------------
(* A Fourier-space observation: image, weight and psf on one grid.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Grids,       \* sequence of [ny, nx, scale], scale in thousandths
          Metas

VARIABLES k,           \* the observation: "none", or [image, weight, psf, meta]
          act
vars == <<k, act>>

None == [image |-> 0, weight |-> 0, psf |-> 0, meta |-> 0]
G == 1..Len(Grids)
Shape(g) == <<Grids[g].ny, Grids[g].nx>>
A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]
Wrong == {"array", "int", "real", "str"}

\* numbers of grids; 0: none given
FitsWeight(g, w) == w = 0 \/ Shape(w) = Shape(g)
FitsPsf(g, p) == p = 0 \/ (Shape(p) = Shape(g) /\ Grids[p].scale = Grids[g].scale)

Init == k = None /\ act = A("start", <<>>, TRUE)
Put(new) == k' = new
Construct(g, w, p, m) ==
  LET ok == FitsWeight(g, w) /\ FitsPsf(g, p)
  IN /\ (IF ok THEN Put([image |-> g, weight |-> w, psf |-> p, meta |-> m]) ELSE UNCHANGED k)
     /\ act' = A("construct", <<g, w, p, m>>, ok)
ConstructWrong(part, x) == UNCHANGED k /\ act' = A("construct_wrong", <<part, x>>, FALSE)
Have == k.image # 0
SetPsf(p) == /\ Have
             /\ (IF FitsPsf(k.image, p) THEN Put([k EXCEPT !.psf = p]) ELSE UNCHANGED k)
             /\ act' = A("set_psf", <<p>>, FitsPsf(k.image, p))
SetPsfWrong(x) == Have /\ UNCHANGED k /\ act' = A("set_psf_wrong", <<x>>, FALSE)
SetMeta(m, how) == Have /\ Put([k EXCEPT !.meta = m]) /\ act' = A("set_meta", <<m, how>>, TRUE)
SetMetaWrong(x, how) == Have /\ UNCHANGED k /\ act' = A("set_meta_wrong", <<x, how>>, FALSE)

Next == \/ \E g \in G, w, p \in G \cup {0}, m \in Metas : Construct(g, w, p, m)
        \/ \E part \in {"image", "weight", "psf", "meta"} : \E x \in Wrong :
             (part = "weight" => x # "real") /\ (part = "meta" => x # "real")
             /\ ConstructWrong(part, x)
        \/ \E p \in G \cup {0} : SetPsf(p)
        \/ \E x \in Wrong : SetPsfWrong(x)
        \/ \E m \in Metas, how \in {"call", "attribute"} : SetMeta(m, how)
        \/ \E x \in Wrong \ {"real"}, how \in {"call", "attribute", "update"} : SetMetaWrong(x, how)

\* everything on one grid
OneGrid == Have => /\ FitsWeight(k.image, k.weight) /\ FitsPsf(k.image, k.psf)
RefusedKeeps == [][~act'.ok => UNCHANGED k]_vars
\* the centre of a grid of n is its element n \div 2
Centre(g) == <<Grids[g].ny \div 2, Grids[g].nx \div 2>>
Derived == [cen |-> IF Have THEN Centre(k.image) ELSE <<>>,
            \* without a weight every mode has one of one
            unit |-> Have /\ k.weight = 0, haspsf |-> Have /\ k.psf # 0]
Emit == PrintT(ToJson([f |-> k, a |-> act', t |-> k', x |-> Derived]))
View == k
===============================================================================
