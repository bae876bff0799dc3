------------------------------- MODULE GenHist -------------------------------
(* All configuration histories of one object up to a given depth, over the
   classes of lengths that the library configures itself differently for.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Classes == {"zero", "one", "tiny", "k4", "k8", "k16", "mid", "six", "odd", "large"}
Depth == atoi(IOEnv.DEPTH)
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E c \in Classes : hist' = Append(hist, c) /\ PrintT(ToJson(hist'))
Spec == Init /\ [][Next]_hist
Bounded == Len(hist) <= Depth
=============================================================================
