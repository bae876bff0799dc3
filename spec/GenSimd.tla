------------------------------- MODULE GenSimd -------------------------------
(* All histories of DEPTH operations (and, in simulation mode, random long
   ones), printed once each.                                                 *)
EXTENDS Simd, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
S == 1..atoi(IOEnv.SLOTS)
N == IF IOEnv.SIZES = "small" THEN {3} ELSE {0, 1, 2, 3, 5, 8, 17, 100, 4097}
VARIABLES hist, done
Init == InitArr /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < Depth /\ \E o \in OpsOf(S, N) : Do(o) /\ hist' = Append(hist, <<o.op, o.s, o.n, o.fail, o.v>>) /\ UNCHANGED done
\* histories that only write and read say nothing new
Busy == Cardinality({k \in 1..Len(hist) : hist[k][1] \in {"write", "writep", "read"}}) * 2 <= Len(hist) + 1
Fin == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<arr, hist>> /\ (Busy => PrintT(ToJson(hist)))
Spec == Init /\ [][Step \/ Fin]_<<arr, hist, done>>
=============================================================================
