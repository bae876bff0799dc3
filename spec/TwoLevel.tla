------------------------------ MODULE TwoLevel ------------------------------
(* Design level: the six and eight step transforms.  The array is an a x b
   matrix; it is transposed, its rows are transformed and twisted, transposed
   again, transformed and transposed.  The rows of a phase are dealt to the
   threads of a team in any order; a thread loads a row into its scratch array,
   works there and stores it; a barrier ends the phase.

   Checked: for all schedules the caller's array ends with the transform of the
   input, and nothing else (Result); the arrays between two phases do not depend
   on the schedule (Determined).  With Barrier = FALSE or OwnScratch = FALSE
   both fail: the harness runs these two configurations too and expects a
   counterexample (the synchronisation modelled is needed, not decoration). *)
EXTENDS Field, FiniteSets, TLC
CONSTANTS Shapes, P, Barrier, OwnScratch

VARIABLES sh, q, w, j, x, y, phase, todo, at, row, buf
vars == <<sh, q, w, j, x, y, phase, todo, at, row, buf>>
Threads == 1..P
a == sh[1]
b == sh[2]
N == a * b
W(k) == w[k % N]
NoBuf == <<>>

\* phases: number of rows, length of a row
Len_(ph) == CASE ph \in {1, 2, 3} -> a [] ph \in {4, 5} -> b [] OTHER -> N
RowsOf(ph) == CASE ph \in {1, 2, 3} -> b [] ph \in {4, 5} -> a [] OTHER -> 1
\* element i of row r of the phase: where it is read and where it is written, and in which array
From(ph, r, i) == CASE ph = 1 -> <<"x", i*b + r>>     \* row r of the transposed matrix is column r
                    [] ph = 2 -> <<"y", r*a + i>>
                    [] ph = 3 -> <<"y", r*a + i>>
                    [] ph = 4 -> <<"x", r*b + i>>
                    [] ph = 5 -> <<"x", r*b + i>>
                    [] ph = 6 -> <<"y", i>>
To(ph, r, i) ==   CASE ph = 1 -> <<"y", r*a + i>>
                    [] ph = 2 -> <<"y", r*a + i>>
                    [] ph = 3 -> <<"x", i*b + r>>
                    [] ph = 4 -> <<"x", r*b + i>>
                    [] ph = 5 -> <<"y", i*a + r>>
                    [] ph = 6 -> <<"x", i>>
Get(c) == IF c[1] = "x" THEN x[c[2]] ELSE y[c[2]]
Work(ph, r, v) == CASE ph = 2 -> [k \in 0..(a-1) |-> (SumTo(LAMBDA i : (v[i] * W(b*i*k)) % q, a - 1, q) * W(r*k)) % q]
                    [] ph = 4 -> [k \in 0..(b-1) |-> SumTo(LAMBDA i : (v[i] * W(a*i*k)) % q, b - 1, q)]
                    [] OTHER -> v
X(k) == W(j * k)

Init == /\ sh = <<0, 0>> /\ q = 0 /\ w = <<>> /\ j = 0 /\ x = <<>> /\ y = <<>> /\ phase = 0 /\ todo = {}
        /\ at = [t \in Threads |-> "idle"] /\ row = [t \in Threads |-> <<0, 0>>] /\ buf = [t \in Threads |-> NoBuf]
Pick == /\ phase = 0
        /\ sh' \in Shapes
        /\ LET NN == sh'[1] * sh'[2] IN
             /\ q' = PrimeAbove(NN, 60)
             /\ w' = Powers(NN, q')
             /\ j' \in 0..(NN - 1)
             /\ x' = [i \in 0..(NN - 1) |-> IF i = j' THEN 1 ELSE 0]
             /\ y' = [i \in 0..(NN - 1) |-> 2]
        /\ phase' = 1 /\ todo' = 0..(sh'[2] - 1)
        /\ UNCHANGED <<at, row, buf>>

Slot(t) == IF OwnScratch THEN t ELSE 1
Load(t) == /\ phase \in 1..6 /\ at[t] = "idle" /\ todo # {}
           /\ \E r \in todo :
                /\ row' = [row EXCEPT ![t] = <<phase, r>>]
                /\ todo' = todo \ {r}
                /\ buf' = [buf EXCEPT ![Slot(t)] = [i \in 0..(Len_(phase) - 1) |-> Get(From(phase, r, i))]]
           /\ at' = [at EXCEPT ![t] = "store"]
           /\ UNCHANGED <<sh, q, w, j, x, y, phase>>
Store(t) == /\ at[t] = "store"
            /\ LET ph == row[t][1]
                   r  == row[t][2]
                   v  == buf[Slot(t)]
                   ok == DOMAIN v = 0..(Len_(ph) - 1)
                   o  == Work(ph, r, v)
                   tgt(arr, i) == {k \in 0..(Len_(ph) - 1) : To(ph, r, k) = <<arr, i>>}
               IN /\ ok
                  /\ x' = [i \in 0..(N-1) |-> IF tgt("x", i) = {} THEN x[i] ELSE o[CHOOSE k \in tgt("x", i) : TRUE]]
                  /\ y' = [i \in 0..(N-1) |-> IF tgt("y", i) = {} THEN y[i] ELSE o[CHOOSE k \in tgt("y", i) : TRUE]]
            /\ at' = [at EXCEPT ![t] = "idle"]
            /\ row' = [row EXCEPT ![t] = <<0, 0>>]
            /\ buf' = IF OwnScratch THEN [buf EXCEPT ![t] = NoBuf] ELSE buf
            /\ UNCHANGED <<sh, q, w, j, phase, todo>>
\* the end of the work-sharing loop
Advance == /\ phase \in 1..6 /\ todo = {}
           /\ Barrier => \A t \in Threads : at[t] = "idle"
           /\ phase' = phase + 1
           /\ todo' = IF phase = 6 THEN {} ELSE 0..(RowsOf(phase + 1) - 1)
           /\ UNCHANGED <<sh, q, w, j, x, y, at, row, buf>>
Next == Pick \/ (\E t \in Threads : Load(t) \/ Store(t)) \/ Advance
Spec == Init /\ [][Next]_vars

Quiet == \A t \in Threads : at[t] = "idle"
Result == (phase = 7 /\ Quiet) => \A k \in 0..(N-1) : x[k] = X(k)
\* what the arrays hold when a phase begins is a function of the phase
Tr(k1, n2) == LET n1 == j \div b m2 == j % b IN IF n2 = m2 THEN W(b*n1*k1 + n2*k1) ELSE 0
Determined == (Quiet /\ phase \in 2..6 /\ todo = 0..(RowsOf(phase) - 1)) =>
   CASE phase = 2 -> \A i \in 0..(N-1) : y[i] = IF i = (j % b)*a + (j \div b) THEN 1 ELSE 0
     [] phase = 3 -> \A i \in 0..(N-1) : y[i] = Tr(i % a, i \div a)
     [] phase = 4 -> \A i \in 0..(N-1) : x[i] = Tr(i \div b, i % b)
     [] phase = 5 -> \A i \in 0..(N-1) : x[i] = X((i \div b) + a*(i % b))
     [] phase = 6 -> \A i \in 0..(N-1) : y[i] = X(i)
STwoLevel == {<<1,2>>, <<2,1>>, <<2,2>>, <<2,3>>, <<3,2>>, <<3,3>>, <<4,2>>, <<2,4>>}
STwoLevel3 == {<<2,2>>, <<2,3>>, <<3,3>>, <<4,2>>, <<2,4>>, <<4,4>>}
STwoLevelNB == {<<2,2>>, <<2,3>>}
STwoLevelNS == {<<2,2>>, <<2,3>>}
=============================================================================
