-------------------------------- MODULE Flags --------------------------------
(* Failure flags: one bit each, named in ascending order, joined by "|".      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bits         \* bits explored
VARIABLES inp, out

Constant == <<"NO_ATTEMPT", "CEN_SHIFT", "NONPOS_FLUX", "NONPOS_SIZE", "LOW_DET", "MAXITER",
  "NONPOS_VAR", "GMIX_RANGE_ERROR", "NONPOS_SHAPE_VAR", "LM_SINGULAR_MATRIX", "LM_NEG_COV_EIG",
  "LM_NEG_COV_DIAG", "LM_FUNC_NOTFINITE", "EIG_NOTFINITE", "DIV_ZERO", "ZERO_DOF">>
Name == <<"no attempt", "center shifted too far", "flux <= 0", "T <= 0", "determinant near zero",
  "max iterations reached", "non-positive (definite) variance", "GMixRangeError raised",
  "non-positive shape variance", "singular matrix in LM", "negative covariance eigenvalue in LM",
  "negative covariance diagional value in LM", "function not finite in LM",
  "eigenvalues of covariance cannot be found in LM", "divide by zero",
  "degrees of freedom for it is zero (no chi^2/dof possible)">>
\* the spelling of the names is not what is relied on, so the harness reads
\* them from the name map; that a bit has a name, and which constant, is here
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o Ascending(S \ {m})
RECURSIVE Value(_)
Value(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN 2^m + Value(S \ {m})

Init == inp \in [bits : SUBSET Bits] /\ out = <<>>
Next == out = <<>> /\ UNCHANGED inp
        /\ out' = <<[value |-> Value(inp.bits), order |-> Ascending(inp.bits)]>>
\* no two sets of flags share a value, and the value contains each of its bits
Contains == out # <<>> => \A b \in Bits :
   (((out[1].value \div 2^b) % 2) = 1) <=> b \in inp.bits
Emit == PrintT(ToJson([inp |-> [n |-> Cardinality(inp.bits)], out |-> out'[1],
                       constant |-> Constant]))
=============================================================================
