------------------------------ MODULE GMixNDRun -------------------------------
(* Two mixtures, the arrays they were built from, and two files.  What a       *)
(* mixture evaluates to and draws from is what was last put into it, whatever  *)
(* happens to the arrays, the files or the other one.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mixes,      \* numbers of the mixtures; that fit to draws of m has number 10 + m
          Files       \* 1 or 1..2

VARIABLES o,           \* <<x, y>> what the two hold, 0: nothing, -1: no such object
          src,         \* what the arrays at hand hold, 0: edited since
          files,       \* <<x, y>>, 0: no file
          act
vars == <<o, src, files, act>>
Obj == {1, 2}
Done == [op |-> "start", args |-> <<>>, ok |-> TRUE]
A(op, args, ok) == [op |-> op, args |-> args, ok |-> ok]

Init == o = <<-1, -1>> /\ src = 0 /\ files = <<0, 0>>
        /\ act = Done
Live(k) == o[k] >= 0
Hold(k, m) == o' = [o EXCEPT ![k] = m]
Same == UNCHANGED <<o, src, files>>

\* the arrays are filled and a mixture is made from them
Build(k, m) == Hold(k, m) /\ src' = m /\ UNCHANGED files /\ act' = A("build", <<k, m>>, TRUE)
Empty(k) == Hold(k, 0) /\ UNCHANGED <<src, files>> /\ act' = A("empty", <<k>>, TRUE)
Partial(k, w) == Same /\ act' = A("partial", <<k, w>>, FALSE)
Set(k, m) == Live(k) /\ Hold(k, m) /\ src' = m /\ UNCHANGED files
             /\ act' = A("set", <<k, m>>, TRUE)
Edit == src # 0 /\ src' = 0 /\ UNCHANGED <<o, files>> /\ act' = A("edit", <<>>, TRUE)
Save(k, f) == /\ Live(k) /\ o[k] # 0 /\ files' = [files EXCEPT ![f] = o[k]]
              /\ UNCHANGED <<o, src>> /\ act' = A("save", <<k, f>>, TRUE)
\* a file which is not there leaves the mixture as it was
Load(k, f) == /\ Live(k)
              /\ IF files[f] = 0 THEN Same
                 ELSE Hold(k, files[f]) /\ UNCHANGED <<src, files>>
              /\ act' = A("load", <<k, f>>, files[f] # 0)
Open(k, f) == /\ files[f] # 0 /\ Hold(k, files[f]) /\ UNCHANGED <<src, files>>
              /\ act' = A("open", <<k, f>>, TRUE)
Copy(k, how) == /\ Live(k)
                /\ o' = [o EXCEPT ![3 - k] = o[k]]
                /\ UNCHANGED <<src, files>> /\ act' = A("copy", <<k, how>>, TRUE)
\* fit draws of a mixture: what is held then is near it
Fit(k, m) == Live(k) /\ Hold(k, m + 10) /\ UNCHANGED <<src, files>>
             /\ act' = A("fit", <<k, m>>, TRUE)
Sample(k, s) == Live(k) /\ o[k] # 0 /\ Same /\ act' = A("sample", <<k, s>>, TRUE)

Next ==
  \/ \E k \in Obj, m \in Mixes : Build(k, m) \/ Set(k, m) \/ Fit(k, m)
  \/ \E k \in Obj : Empty(k) \/ \E w \in 1..3 : Partial(k, w)
  \/ \E k \in Obj, f \in Files : Save(k, f) \/ Load(k, f) \/ Open(k, f)
  \/ \E k \in Obj, h \in {"deepcopy", "pickle"} : Copy(k, h)
  \/ \E k \in Obj, s \in {0, 1, 5} : Sample(k, s)
  \/ Edit
Spec == Init /\ [][Next]_vars

All == Mixes \cup {m + 10 : m \in Mixes} \cup {0}
TypeOK == /\ \A k \in Obj : o[k] \in All \cup {-1} /\ files[k] \in All
          /\ src \in Mixes \cup {0}
\* only what addresses a mixture changes it
Addressed == [][\A k \in Obj : o'[k] # o[k] =>
                  \/ act'.op \in {"build", "empty", "set", "load", "open", "fit"}
                     /\ act'.args[1] = k
                  \/ act'.op = "copy" /\ act'.args[1] = 3 - k]_vars
RefusedKeeps == [][~act'.ok => UNCHANGED <<o, src, files>>]_vars
ReadsKeep == [][act'.op \in {"sample", "save", "edit"} => UNCHANGED o]_vars
View == <<o, src, files>>
Emit == PrintT(ToJson([f |-> [o |-> o, src |-> src, files |-> files],
                       t |-> [o |-> o', src |-> src', files |-> files'],
                       a |-> act']))
===============================================================================
