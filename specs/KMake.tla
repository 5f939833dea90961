-------------------------------- MODULE KMake ---------------------------------
(* Fourier-space observations made from real-space ones.  One grid serves all: *)
(* its size is the largest any epoch asks for, its spacing that of the image   *)
(* of the (first) epoch which asks for it.  An epoch asks for the good size of *)
(* its psf, or of its image when it has none, and one more.                    *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Layouts  \* set of [id, lay]; lay: bands, of epochs [psf, size, psfsize, wmax, psfwmax]

VARIABLES inp, out
vars == <<inp, out>>

Places(lay) == {<<b, e>> \in (1..Len(lay)) \X (1..6) : e <= Len(lay[b])}
Asks(lay, p) == LET e == lay[p[1]][p[2]] IN 1 + (IF e.psf THEN e.psfsize ELSE e.size)
Before(p, r) == p[1] < r[1] \/ (p[1] = r[1] /\ p[2] < r[2])
Chosen(lay) == CHOOSE p \in Places(lay) :
   \A r \in Places(lay) : Asks(lay, r) < Asks(lay, p) \/
      (Asks(lay, r) = Asks(lay, p) /\ (r = p \/ Before(p, r)))
\* half the largest weight over the number of modes
Weight(w, n) == RDiv(RMul(Q(1, 2), w), RI(n * n))
Answer(lay) ==
  IF Places(lay) = {} THEN [ok |-> FALSE, dim |-> 0, from |-> <<>>, lay |-> <<>>]
  ELSE LET c == Chosen(lay)
           n == Asks(lay, c)
       IN [ok |-> TRUE, dim |-> n, from |-> c,
           lay |-> [b \in DOMAIN lay |-> [e \in DOMAIN lay[b] |->
             [psf |-> lay[b][e].psf, weight |-> Weight(lay[b][e].wmax, n),
              psfweight |-> IF lay[b][e].psf THEN Weight(lay[b][e].psfwmax, n) ELSE RZero]]]]

Init == inp \in Layouts /\ out = <<>>
Next == out = <<>> /\ out' = <<Answer(inp.lay)>> /\ UNCHANGED inp
Done == out # <<>> /\ out[1].ok
Enough == Done => \A p \in Places(inp.lay) : Asks(inp.lay, p) <= out[1].dim
Structure == Done => /\ Len(out[1].lay) = Len(inp.lay)
                     /\ \A b \in DOMAIN inp.lay : Len(out[1].lay[b]) = Len(inp.lay[b])
\* the sum of the weights over the modes is half that of one pixel
Power == Done => \A p \in Places(inp.lay) :
   RMul(RI(out[1].dim * out[1].dim), out[1].lay[p[1]][p[2]].weight)
     = RMul(Q(1, 2), inp.lay[p[1]][p[2]].wmax)
Emit == PrintT(ToJson([inp |-> inp, out |-> out'[1]]))
===============================================================================
