------------------------------- MODULE GenMix --------------------------------
(* All interleavings of the life cycles of M objects: each is created, used,
   set up again, used and destroyed (the steps in between may be left out by
   choosing a shorter cycle), as one user thread may issue them.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == atoi(IOEnv.M)
Cycle == CASE IOEnv.CYCLE = "long"  -> <<"create", "x", "setup", "x", "destroy">>
           [] IOEnv.CYCLE = "mid"   -> <<"create", "setup", "x", "destroy">>
           [] OTHER                 -> <<"create", "x", "destroy">>
VARIABLES at, hist
Init == at = [o \in 1..M |-> 0] /\ hist = <<>>
Step(o) == /\ at[o] < Len(Cycle)
           /\ at' = [at EXCEPT ![o] = @ + 1]
           /\ hist' = Append(hist, <<o, Cycle[at[o] + 1]>>)
           /\ (Len(hist') = M * Len(Cycle)) => PrintT(ToJson(hist'))
Next == \E o \in 1..M : Step(o)
Spec == Init /\ [][Next]_<<at, hist>>
Bounded == Len(hist) <= M * Len(Cycle)
=============================================================================
