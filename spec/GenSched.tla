------------------------------- MODULE GenSched ------------------------------
(* All orders in which a team of T threads can run K consecutive epochs.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == atoi(IOEnv.T)
K == atoi(IOEnv.K)
VARIABLES done,      \* complete epochs, each the order in which the threads ran
          cur        \* threads that have run in this epoch
Init == done = <<>> /\ cur = <<>>
Run(t) == /\ Len(done) < K /\ \A k \in 1..Len(cur) : cur[k] # t
          /\ LET c == Append(cur, t) IN
             IF Len(c) = T
             THEN /\ done' = Append(done, c) /\ cur' = <<>>
                  /\ (Len(done') = K) => PrintT(ToJson(done'))
             ELSE cur' = c /\ UNCHANGED done
Next == \E t \in 0..(T-1) : Run(t)
Spec == Init /\ [][Next]_<<done, cur>>
Bounded == Len(done) <= K
=============================================================================
