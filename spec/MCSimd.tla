------------------------------- MODULE MCSimd --------------------------------
(* The ownership discipline itself: with every block numbered as it is
   obtained, the steps an implementation takes (release the old block, then
   ask for the new one) keep ownership unique and release each block once.   *)
EXTENDS Simd
CONSTANT MaxBlocks
VARIABLES own, released, next
\* own[s]: number of the block slot s owns, 0 none; released[b]: how often block b was released
vars == <<arr, own, released, next>>
Init == InitArr /\ own = [s \in Slots |-> 0] /\ released = [b \in 1..MaxBlocks |-> 0] /\ next = 1
Obtains(o) == o.op \in {"ctor", "setup", "malloc"} /\ o.fail = 0
Releases(o) == own[o.s] # 0 /\ o.op \in {"setup", "destroy", "dtor", "free"}
Step(o) == /\ Do(o)
           /\ released' = IF Releases(o) THEN [released EXCEPT ![own[o.s]] = @ + 1] ELSE released
           /\ Obtains(o) => next <= MaxBlocks
           /\ next' = IF Obtains(o) THEN next + 1 ELSE next
           /\ own' = [own EXCEPT ![o.s] = IF Obtains(o) THEN next ELSE IF Releases(o) THEN 0 ELSE @]
Next == \E o \in OpsOf(Slots, {0, 1}) : Step(o)
Spec == Init /\ [][Next]_vars
Unique == \A s, t \in Slots : s # t /\ own[s] # 0 => own[s] # own[t]
Owned == \A s \in Slots : (arr[s].st = "held") <=> (own[s] # 0)
Once == \A b \in 1..MaxBlocks : released[b] = (IF b < next /\ \A s \in Slots : own[s] # b THEN 1 ELSE 0)
=============================================================================
