--------------------------------- MODULE Obs ---------------------------------
(* One observation: image, weights, coordinate transform, the two pixel      *)
(* options, the explicit write context, optional parts and metadata.         *)
(*                                                                           *)
(* Numbers are integers in fixed units: image and weight in units of 1,      *)
(* transform entries in units of 1/4, its centre in units of 1/2, sky        *)
(* positions in units of 1/8 and areas in units of 1/16.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R, C,        \* image dimensions
          ImgPats,     \* sequence of images that may be set
          WtPats,      \* sequence of weight maps that may be set
          JacPats,     \* sequence of transforms that may be set
          PokeCells,   \* cells that may be edited in place
          MaxEdits,    \* in-place edits per write context
          DataOps,     \* BOOLEAN: image/weight/transform actions
          PartVals,    \* [part |-> number of distinct values], parts in play
          MaxParts     \* how many optional parts may be present at once

VARIABLES img, wt, jac, store, ign, ctx, nedit, pix, parts, meta, act
vars == <<img, wt, jac, store, ign, ctx, nedit, pix, parts, meta, act>>
View == <<img, wt, jac, store, ign, ctx, nedit, pix, parts, meta>>

N == R * C
Cells == 1..N
Parts == DOMAIN PartVals
Absent == 0
NoPix == [has |-> FALSE, list |-> <<>>]

Row(k) == (k - 1) \div C
Col(k) == (k - 1) % C
Abs(x) == IF x < 0 THEN -x ELSE x

Root(w) == IF w <= 0 THEN 0 ELSE CHOOSE r \in 1..16 : r * r = w

Det(j) == j.vr * j.uc - j.vc * j.ur

UnitJac == [r |-> R - 1, c |-> C - 1, vr |-> 4, vc |-> 0, ur |-> 0, uc |-> 4]

PixelOf(k, im, w, j) ==
  LET dr == 2 * Row(k) - j.r
      dc == 2 * Col(k) - j.c
  IN [v |-> j.vr * dr + j.vc * dc,
      u |-> j.ur * dr + j.uc * dc,
      area |-> Abs(Det(j)),
      val |-> im[k],
      ierr |-> Root(w[k])]

Used(w, i) == SelectSeq([k \in Cells |-> k], LAMBDA k : ~i \/ w[k] > 0)

Project(im, w, j, i) ==
  LET keep == Used(w, i)
  IN [has |-> TRUE,
      list |-> [n \in 1..Len(keep) |-> PixelOf(keep[n], im, w, j)]]

(* can a pixel list be made at all? *)
Usable(w, s, i) == ~s \/ ~i \/ (\E k \in Cells : w[k] > 0)
PixFor(im, w, j, s, i) == IF s /\ Usable(w, s, i) THEN Project(im, w, j, i) ELSE NoPix

-----------------------------------------------------------------------------
Call(op, args, ok) == act' = [op |-> op, args |-> args, ok |-> ok]

Frame == UNCHANGED <<parts, meta>>
Data == <<img, wt, jac, store, ign, pix>>

(* every accepted edit goes through this: new contents, and pixels to match *)
Become(im, w, j, s, i) ==
  /\ img' = im /\ wt' = w /\ jac' = j /\ store' = s /\ ign' = i
  /\ pix' = PixFor(im, w, j, s, i)

Attempt(op, args, im, w, j, s, i) ==
  \/ /\ Usable(w, s, i)
     /\ Become(im, w, j, s, i)
     /\ Call(op, args, TRUE)
     /\ UNCHANGED <<ctx, nedit>> /\ Frame
  \/ /\ ~Usable(w, s, i)
     /\ UNCHANGED <<img, wt, jac, store, ign, pix, ctx, nedit>> /\ Frame
     /\ Call(op, args, FALSE)

Reject(op, args) ==
  /\ UNCHANGED <<img, wt, jac, store, ign, pix, ctx, nedit>> /\ Frame
  /\ Call(op, args, FALSE)

Accept(op, args) ==
  /\ UNCHANGED <<img, wt, jac, store, ign, pix, ctx, nedit>> /\ Frame
  /\ Call(op, args, TRUE)

SetImage(n) == Attempt("set_image", <<n>>, ImgPats[n], wt, jac, store, ign)
SetWeight(n) == Attempt("set_weight", <<n>>, img, WtPats[n], jac, store, ign)
SetWeightDefault ==
  Attempt("set_weight_default", <<>>, img, [k \in Cells |-> 1], jac, store, ign)
SetJac(n) == Attempt("set_jacobian", <<n>>, img, wt, JacPats[n], store, ign)
SetJacDefault == Attempt("set_jacobian_default", <<>>, img, wt, UnitJac, store, ign)

(* an option set to the value it has is no edit at all *)
SetStore(b) == IF b = store THEN Accept("store_pixels", <<b>>)
               ELSE Attempt("store_pixels", <<b>>, img, wt, jac, b, ign)
SetIgnore(b) == IF b = ign THEN Accept("ignore_zero_weight", <<b>>)
                ELSE Attempt("ignore_zero_weight", <<b>>, img, wt, jac, store, b)
UpdatePixels == Attempt("update_pixels", <<>>, img, wt, jac, store, ign)

BadData(what, how) == Reject("bad_" \o what, <<how>>)

Enter ==
  /\ ~ctx /\ ctx' = TRUE /\ nedit' = 0
  /\ UNCHANGED <<img, wt, jac, store, ign, pix>> /\ Frame
  /\ Call("enter", <<>>, TRUE)

(* leaving the context, normally or by an exception, brings the list up to   *)
(* date; it fails when no usable pixel is left, and then there is no list     *)
Exit(raising) ==
  /\ ctx /\ ctx' = FALSE /\ nedit' = 0
  /\ UNCHANGED <<img, wt, jac, store, ign>> /\ Frame
  /\ pix' = PixFor(img, wt, jac, store, ign)
  /\ Call("exit", <<raising>>, Usable(wt, store, ign))

PokeImage(k, x) ==
  IF ctx
  THEN /\ nedit < MaxEdits /\ nedit' = nedit + 1
       /\ img' = [img EXCEPT ![k] = x]
       /\ UNCHANGED <<wt, jac, store, ign, pix, ctx>> /\ Frame
       /\ Call("poke_image", <<k, x>>, TRUE)
  ELSE Reject("poke_image", <<k, x>>)

PokeWeight(k, x) ==
  IF ctx
  THEN /\ nedit < MaxEdits /\ nedit' = nedit + 1
       /\ wt' = [wt EXCEPT ![k] = x]
       /\ UNCHANGED <<img, jac, store, ign, pix, ctx>> /\ Frame
       /\ Call("poke_weight", <<k, x>>, TRUE)
  ELSE Reject("poke_weight", <<k, x>>)

(* multiply the whole weight map in place; 0 leaves nothing usable *)
ScaleWeight(f) ==
  IF ctx
  THEN /\ nedit < MaxEdits /\ nedit' = nedit + 1
       /\ wt' = [k \in Cells |-> f * wt[k]]
       /\ UNCHANGED <<img, jac, store, ign, pix, ctx>> /\ Frame
       /\ Call("scale_weight", <<f>>, TRUE)
  ELSE Reject("scale_weight", <<f>>)

PokeJac(r, c) ==
  IF ctx
  THEN /\ nedit < MaxEdits /\ nedit' = nedit + 1
       /\ jac' = [jac EXCEPT !.r = r, !.c = c]
       /\ UNCHANGED <<img, wt, store, ign, pix, ctx>> /\ Frame
       /\ Call("poke_jacobian", <<r, c>>, TRUE)
  ELSE Reject("poke_jacobian", <<r, c>>)

PokePixels == pix.has /\ pix.list # <<>> /\ Reject("poke_pixels", <<>>)

(* changing a transform or mixture the observation handed out as a copy, or   *)
(* one that was handed in, changes nothing inside                              *)
-----------------------------------------------------------------------------
(* optional parts *)
Array == {"bmask", "ormask", "noise", "mfrac"}

PartFrame == UNCHANGED <<img, wt, jac, store, ign, pix, ctx, nedit>>

NPresent(p) == Cardinality({x \in Parts : p[x] # Absent})

SetPart(p, v) ==
  /\ parts' = [parts EXCEPT ![p] = v] /\ NPresent(parts') <= MaxParts
  /\ PartFrame /\ UNCHANGED meta
  /\ Call("set_part", <<p, v>>, TRUE)

ClearPart(p) ==
  /\ parts' = [parts EXCEPT ![p] = Absent]
  /\ PartFrame /\ UNCHANGED meta
  /\ Call("clear_part", <<p>>, TRUE)

BadPart(p, how) ==
  /\ (how \in {"shape", "ndim"}) => p \in Array
  /\ (how = "type") => p \in {"psf", "gmix"}
  /\ Reject("bad_part", <<p, how>>)

(* in place: value 1 becomes value 2, inside the context only *)
PokePart(p) ==
  /\ p \in Array /\ parts[p] = 1 /\ PartVals[p] >= 2
  /\ IF ctx
     THEN /\ parts' = [parts EXCEPT ![p] = 2]
          /\ PartFrame /\ UNCHANGED meta
          /\ Call("poke_part", <<p>>, TRUE)
     ELSE Reject("poke_part", <<p>>)

(* the mixture handed out is a copy: editing it has no effect *)
PokeGMix == /\ "gmix" \in Parts /\ parts["gmix"] # Absent
            /\ Accept("poke_gmix", <<>>)

GetMissing(p) == parts[p] = Absent /\ Reject("get_missing", <<p>>)

MetaKeys == {"a", "b"}
SetMeta(m) == /\ meta' = m /\ UNCHANGED parts /\ PartFrame
              /\ Call("set_meta", <<m>>, TRUE)
UpdateMeta(m) ==
  /\ meta' = [k \in DOMAIN meta \cup DOMAIN m |-> IF k \in DOMAIN m THEN m[k] ELSE meta[k]]
  /\ UNCHANGED parts /\ PartFrame
  /\ Call("update_meta", <<m>>, TRUE)
BadMeta(how) == Reject("bad_meta", <<how>>)
EmptyMeta == [k \in {} |-> 0]
Metas == {[k \in {"a"} |-> 1], [k \in {"b"} |-> 2]}

-----------------------------------------------------------------------------
Init ==
  /\ img \in {ImgPats[n] : n \in 1..Len(ImgPats)}
  /\ wt \in {[k \in Cells |-> 1]} \cup {WtPats[n] : n \in 1..Len(WtPats)}
  /\ jac \in {UnitJac} \cup {JacPats[n] : n \in 1..Len(JacPats)}
  /\ store \in BOOLEAN /\ ign \in BOOLEAN
  /\ Usable(wt, store, ign)
  /\ (~DataOps) => (store /\ ign)
  /\ ctx = FALSE /\ nedit = 0
  /\ pix = PixFor(img, wt, jac, store, ign)
  /\ parts = [p \in Parts |-> Absent]
  /\ meta = EmptyMeta
  /\ act = [op |-> "construct", args |-> <<>>, ok |-> TRUE]

DataNext ==
  \/ \E n \in 1..Len(ImgPats) : SetImage(n)
  \/ \E n \in 1..Len(WtPats) : SetWeight(n)
  \/ SetWeightDefault
  \/ \E n \in 1..Len(JacPats) : SetJac(n)
  \/ SetJacDefault
  \/ \E b \in BOOLEAN : SetStore(b) \/ SetIgnore(b)
  \/ UpdatePixels
  \/ \E what \in {"image", "weight"}, how \in {"shape", "ndim", "transpose"} :
        /\ (how = "transpose") => R # C
        /\ BadData(what, how)
  \/ BadData("jacobian", "type")
  \/ \E k \in PokeCells, x \in {7} : PokeImage(k, x)
  \/ \E k \in PokeCells, x \in {0, 4} : PokeWeight(k, x)
  \/ ScaleWeight(0)
  \/ PokeJac(3, -1)
  \/ PokePixels

PartNext ==
  \/ \E p \in Parts : \/ \E v \in 1..PartVals[p] : SetPart(p, v)
                      \/ ClearPart(p)
                      \/ \E how \in {"shape", "ndim", "type"} : BadPart(p, how)
                      \/ PokePart(p)
                      \/ GetMissing(p)
  \/ PokeGMix
  \/ \E m \in Metas \cup {EmptyMeta} : SetMeta(m)
  \/ \E m \in Metas : UpdateMeta(m)
  \/ \E how \in {"set", "update"} : BadMeta(how)

Next == \/ Enter
        \/ \E b \in BOOLEAN : Exit(b)
        \/ DataOps /\ DataNext
        \/ Parts # {} /\ PartNext

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C01 *)
PixelsCurrent == ~ctx => pix = PixFor(img, wt, jac, store, ign)
NoStoreNoPix == ~store => pix = NoPix
PositiveOnly == (~ctx /\ ign /\ pix.has) =>
                  \A n \in 1..Len(pix.list) : pix.list[n].ierr > 0
(* C02 *)
RejectedUnchanged ==
  [][(~act'.ok /\ act'.op # "exit") => View' = View]_vars
ReadOnlyOutside ==
  [][(~ctx /\ act'.op \in {"poke_image", "poke_weight", "scale_weight",
                           "poke_jacobian", "poke_part"}) => ~act'.ok]_vars

Emit ==
  PrintT(ToJson([
    f |-> [img |-> img, wt |-> wt, jac |-> jac, store |-> store, ign |-> ign,
           ctx |-> ctx, nedit |-> nedit, pix |-> pix, parts |-> parts, meta |-> meta],
    a |-> act',
    t |-> [img |-> img', wt |-> wt', jac |-> jac', store |-> store', ign |-> ign',
           ctx |-> ctx', nedit |-> nedit', pix |-> pix', parts |-> parts', meta |-> meta']]))
=============================================================================
