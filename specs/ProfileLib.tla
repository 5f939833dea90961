----------------------------- MODULE ProfileLib ------------------------------
(* The named profiles: what mixture each parameter vector stands for.  The    *)
(* relative sizes and fluxes of the components are the published tables, kept *)
(* as literals; everything else is exact or a term over them.                 *)
EXTENDS Rat, Integers, Sequences

L(s) == <<"lit", s>>
ExpP == <<L("0.00061601229677880041"), L("0.0079461395724623237"), L("0.053280454055540001"),
          L("0.21797364640726541"), L("0.45496740582554868"), L("0.26521634184240478")>>
ExpF == <<L("0.002467115141477932"), L("0.018147435573256168"), L("0.07944063151366336"),
          L("0.27137669897479122"), L("0.79782256866993773"), L("2.1623306025075739")>>
DevP == <<L("6.5288960012625658e-05"), L("0.00044199216814302695"), L("0.0020859587871659754"),
          L("0.0075913681418996841"), L("0.02260266219257237"), L("0.056532254390212859"),
          L("0.11939049233042602"), L("0.20969545753234975"), L("0.29254151133139222"),
          L("0.28905301416582552")>>
DevF == <<L("2.9934935706271918e-07"), L("3.4651596338231207e-06"), L("2.4807910570562753e-05"),
          L("1.4307404300535354e-04"), L("7.2753169298239500e-04"), L("3.4582464394427260e-03"),
          L("1.6086645440719100e-02"), L("7.7006776775654429e-02"), L("4.1012562102501476e-01"),
          L("2.9812509778548648e00")>>
TurbP == <<L("0.596510042804182"), L("0.4034898268889178"), L("1.303069003078001e-07")>>
TurbF == <<L("0.5793612389470884"), L("1.621860687127999"), L("7.019347162356363")>>
GausP == <<L("1")>>

(* ---- names, numbers and sizes ---- *)
Number == [full |-> 0, gauss |-> 1, turb |-> 2, exp |-> 3, dev |-> 4, bdf |-> 6,
           coellip |-> 7, cm |-> 9, bd |-> 10]
NGauss == [gauss |-> 1, turb |-> 3, exp |-> 6, dev |-> 10, cm |-> 16, bd |-> 16, bdf |-> 16]
NPar == [gauss |-> 6, turb |-> 6, exp |-> 6, dev |-> 6, cm |-> 6, bd |-> 8, bdf |-> 7]
Simple == {"gauss", "turb", "exp", "dev"}
Table(m) == CASE m = "gauss" -> <<GausP, GausP>>
              [] m = "turb" -> <<TurbP, TurbF>>
              [] m = "exp" -> <<ExpP, ExpF>>
              [] m = "dev" -> <<DevP, DevF>>

InDisk(g) == RLt(RAdd(RSq(g[1]), RSq(g[2])), ROne)

\* the vector handed to the code
Vector(i) ==
  LET b == i.base
      head == <<b[1], b[2], i.g[1], i.g[2]>>
  IN CASE i.model \in Simple \cup {"cm"} -> head \o <<b[3], b[4]>>
       [] i.model = "bdf" -> head \o <<b[3], i.fracdev, b[4]>>
       [] i.model = "bd" -> head \o <<b[3], i.lrat, i.fracdev, b[4]>>
       [] i.model = "coellip" -> head \o i.coell[1] \o i.coell[2]

(* ---- what it stands for ---- *)
E(g, k) == RDiv(RMul(RI(2), g[k]), RAdd(ROne, RAdd(RSq(g[1]), RSq(g[2]))))

\* the relative fluxes and sizes of a bulge and a disk in units of the disk's
Ratio(i) == IF i.model = "bdf" THEN ROne ELSE <<"pow", <<10, 1>>, i.lrat>>
MixP(i) == [k \in 1..16 |-> IF k <= 6 THEN TMul(RSub(ROne, i.fracdev), ExpP[k])
                            ELSE TMul(i.fracdev, DevP[k - 6])]
MixF(i) == [k \in 1..16 |-> IF k <= 6 THEN ExpF[k] ELSE TMul(Ratio(i), DevF[k - 6])]
\* sizes are such that the whole has the size asked for
MixMean(i) == TSum([k \in 1..16 |-> TMul(MixP(i)[k], MixF(i)[k])])

Parts(i) ==      \* <<flux, size>> of each component
  LET T == i.base[3]
      F == i.base[4]
  IN CASE i.model \in Simple ->
            [k \in 1..NGauss[i.model] |->
               <<TMul(F, Table(i.model)[1][k]), TMul(T, Table(i.model)[2][k])>>]
       [] i.model \in {"bd", "bdf", "cm"} ->
            [k \in 1..16 |-> <<TMul(F, MixP(i)[k]),
                               TMul(T, TDiv(MixF(i)[k], <<"ref", 1>>))>>]
       [] i.model = "coellip" ->
            [k \in 1..Len(i.coell[1]) |-> <<i.coell[2][k], i.coell[1][k]>>]

Flux(i) == IF i.model = "coellip" THEN RSum(i.coell[2]) ELSE i.base[4]
\* the size of the whole: as asked, up to the rounding of the tables
TotalT(i) ==
  CASE i.model \in {"gauss", "bd", "bdf", "cm"} -> i.base[3]
    [] i.model \in Simple -> TMul(i.base[3], TSum([k \in 1..NGauss[i.model] |->
            TMul(Table(i.model)[1][k], Table(i.model)[2][k])]))
    [] i.model = "coellip" ->
         IF RSign(Flux(i)) = 0 THEN RZero
         ELSE RDiv(RSum([k \in 1..Len(i.coell[1]) |-> RMul(i.coell[1][k], i.coell[2][k])]), Flux(i))

==============================================================================
