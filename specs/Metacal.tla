------------------------------- MODULE Metacal -------------------------------
(* What a metacal call must deliver.  A configuration is the requested types   *)
(* (a sequence, or <<"default">>), the psf kind, the noise treatment, and the  *)
(* nesting.  The prescription gives, for each delivered type, the shear applied *)
(* to the deconvolved image and to the target psf (in units of the step), and   *)
(* the construction of the target psf.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TypeSeqs, Psfs, Noises, Kinds, HasRng, PsfImgs

VARIABLES inp, out
vars == <<inp, out>>

Min5 == <<"noshear", "1p", "1m", "2p", "2m">>
PsfTypes == <<"1p_psf", "1m_psf", "2p_psf", "2m_psf">>
AllTypes == Min5 \o PsfTypes
Range(s) == {s[i] : i \in 1..Len(s)}

(* the psf-sheared types exist only where the target psf can be sheared *)
Supported(psf) == IF psf = "dilate" THEN Range(AllTypes) ELSE Range(Min5)
Default(psf) == IF psf = "dilate" THEN AllTypes ELSE Min5

Asked(c) == IF c.types = <<"default">> THEN Default(c.psf) ELSE c.types
(* the unsheared and the positively sheared image are made as a pair *)
Delivered(c) == LET s == Range(Asked(c))
                IN IF s \cap {"noshear", "1p"} # {} THEN s \cup {"noshear", "1p"}
                   ELSE s

Shear(t) == CASE t = "1p" -> <<1, 0>> [] t = "1m" -> <<-1, 0>>
              [] t = "2p" -> <<0, 1>> [] t = "2m" -> <<0, -1>>
              [] OTHER -> <<0, 0>>
PsfShear(t) == CASE t = "1p_psf" -> <<1, 0>> [] t = "1m_psf" -> <<-1, 0>>
                 [] t = "2p_psf" -> <<0, 1>> [] t = "2m_psf" -> <<0, -1>>
                 [] OTHER -> <<0, 0>>

(* where the call is refused *)
Refused(c) == \/ Range(Asked(c)) \ Supported(c.psf) # {}
              \/ ~c.rng /\ (c.psf = "fitgauss" \/ c.noise = "rng")

Per(t, c) == [type |-> t, shear |-> Shear(t), psfshear |-> PsfShear(t)]

F(c) == [refused |-> Refused(c),
         deliver |-> IF Refused(c) THEN {} ELSE {Per(t, c) : t \in Delivered(c)},
         \* the target psf, as a function of the dilation 1 + 2 step
         target |-> IF c.psf = "dilate" THEN "dilate_reconvolve_pixel"
                    ELSE "dilate_round",
         \* a fitted target takes its size from adaptive moments of the psf; when
         \* those cannot be had (the psf lies far from the nominal centre) from
         \* a maximum likelihood gaussian
         size |-> IF c.psf # "fitgauss" THEN "given"
                  ELSE IF c.psfimg = "far" THEN "likelihood" ELSE "moments",
         \* whether a sheared noise image is added, and inverse weights summed
         addnoise |-> c.noise # "none"]

Init == /\ inp \in [types : TypeSeqs, psf : Psfs, noise : Noises, kind : Kinds,
                    rng : HasRng, psfimg : PsfImgs]
        /\ inp.psfimg = "far" => inp.psf = "fitgauss" /\ inp.kind = "obs"
        /\ out = <<>>
Next == out = <<>> /\ out' = <<F(inp)>> /\ UNCHANGED inp

-----------------------------------------------------------------------------
Neg(s) == <<-s[1], -s[2]>>
Pairs == {<<"1p", "1m">>, <<"2p", "2m">>}
Antisymmetric == \A p \in Pairs : Shear(p[1]) = Neg(Shear(p[2]))
OneOnly == \A t \in Range(AllTypes) : Shear(t) = <<0, 0>> \/ PsfShear(t) = <<0, 0>>
AskedIsDelivered ==
  out # <<>> /\ ~out[1].refused =>
    /\ Range(Asked(inp)) \subseteq {d.type : d \in out[1].deliver}
    /\ {d.type : d \in out[1].deliver} \subseteq Range(Asked(inp)) \cup {"noshear", "1p"}

Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
==============================================================================
