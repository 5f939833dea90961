------------------------------- MODULE Caching -------------------------------
(* Computations with an optional cache of intermediate products.  Registers    *)
(* hold inputs, whose content is one of a number of variants; a computation's  *)
(* answer is a function of the operation and the content alone, however the    *)
(* cache was used before.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, Variants, Ops, Caches,
          BadOps,     \* operations that fail, on any content
          Capacity,   \* cache size (0: the cache contents are not tracked)
          Pure        \* FALSE: a cache entry may be handed out for editing
                      \*        (a wrong design, used to test the model)

VARIABLES mode, reg, cache, held, act
vars == <<mode, reg, cache, held, act>>
View == <<mode, reg, cache, held>>

NoEntry == <<>>
Key(o, v) == <<o, v>>
Fresh(k) == k            \* the answer determined by a key
Garbage == <<"garbage">>

Entries == {c \in cache : TRUE}
Lookup(k) == LET s == {c \in cache : c.key = k}
             IN IF s = {} THEN NoEntry ELSE <<(CHOOSE c \in s : TRUE).val>>

A(op, args, res) == [op |-> op, args |-> args, res |-> res, ok |-> TRUE]

Init == /\ mode = [c \in Caches |-> FALSE]
        /\ reg \in [Regs -> Variants]
        /\ cache = {} /\ held = NoEntry
        /\ act = A("start", <<>>, <<>>)

AnyOn == \E c \in Caches : mode[c]

Evictions(s) == IF Cardinality(s) <= Capacity THEN {s}
                ELSE {t \in SUBSET s : Cardinality(t) = Capacity}

Compute(o, r) ==
  LET k == Key(o, reg[r])
      hit == IF AnyOn /\ Capacity > 0 THEN Lookup(k) ELSE NoEntry
      ans == IF hit = NoEntry THEN Fresh(k) ELSE hit[1]
  IN /\ IF Capacity > 0 /\ AnyOn
        THEN \E s \in Evictions({c \in cache : c.key # k}
                                 \cup {[key |-> k, val |-> ans]}) : cache' = s
        ELSE UNCHANGED cache
     /\ held' = IF Capacity > 0 THEN <<k>> ELSE held
     /\ UNCHANGED <<mode, reg>>
     /\ act' = A("compute", <<o, r>>, ans)

(* a failing computation leaves nothing behind *)
Fail(o, r) == /\ UNCHANGED <<mode, reg, cache, held>>
              /\ act' = [op |-> "fail", args |-> <<o, r>>, res |-> <<>>, ok |-> FALSE]

(* the caller scribbles over the arrays of the last answer *)
EditAnswer ==
  /\ held # NoEntry
  /\ cache' = IF Pure THEN cache
              ELSE {IF c.key = held[1] THEN [c EXCEPT !.val = Garbage] ELSE c : c \in cache}
  /\ UNCHANGED <<mode, reg, held>>
  /\ act' = A("edit_answer", <<>>, <<>>)
EditAnswerUntracked == /\ Capacity = 0 /\ UNCHANGED <<mode, reg, cache, held>>
                       /\ act' = A("edit_answer", <<>>, <<>>)

(* the input is edited in place, or discarded and another made *)
EditInput(r, v) == /\ v # reg[r]
                   /\ reg' = [reg EXCEPT ![r] = v]
                   /\ UNCHANGED <<mode, cache, held>>
                   /\ act' = A("edit_input", <<r, v>>, <<>>)
Replace(r, v) == /\ reg' = [reg EXCEPT ![r] = v]
                 /\ UNCHANGED <<mode, cache, held>>
                 /\ act' = A("replace", <<r, v>>, <<>>)
Toggle(c) == /\ mode' = [mode EXCEPT ![c] = ~@]
             /\ cache' = IF mode[c] THEN {} ELSE cache
             /\ UNCHANGED <<reg, held>>
             /\ act' = A("toggle", <<c, ~mode[c]>>, <<>>)

Next == \/ \E r \in Regs : \/ \E o \in Ops : Compute(o, r)
                           \/ \E o \in BadOps : Fail(o, r)
                           \/ \E v \in Variants : EditInput(r, v) \/ Replace(r, v)
        \/ EditAnswer \/ EditAnswerUntracked
        \/ \E c \in Caches : Toggle(c)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
EntriesFresh == \A c \in cache : c.val = Fresh(c.key)
AnswersFresh ==
  [][act'.op = "compute" => act'.res = Fresh(Key(act'.args[1], reg[act'.args[2]]))]_vars

Emit == PrintT(ToJson([f |-> [mode |-> mode, reg |-> reg], a |-> act',
                       t |-> [mode |-> mode', reg |-> reg']]))
=============================================================================
