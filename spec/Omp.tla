-------------------------------- MODULE Omp ----------------------------------
(* The internal parallel regions: a team of T threads that runs from one
   synchronisation point to the next.  An epoch is what happens between two of
   them.  The threads may run an epoch in any order, and interleaved in any
   way; MCOmp.tla shows that if every epoch is race free the memory afterwards
   does not depend on that.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE team          \* NoTeam or a record
NoTeam == [T |-> 0, st |-> <<>>, ep |-> 0]

Fork(T) == /\ team = NoTeam /\ T >= 1
           /\ team' = [T |-> T, st |-> [t \in 1..T |-> "run"], ep |-> 0]
Arrive(t, kind) == /\ team # NoTeam /\ t \in 1..team.T
                   /\ team.st[t] = "run" /\ kind \in {"bar", "end"}
                   /\ team' = [team EXCEPT !.st[t] = kind]
Release == /\ team # NoTeam /\ \A t \in 1..team.T : team.st[t] = "bar"
           /\ team' = [team EXCEPT !.st = [t \in 1..team.T |-> "run"], !.ep = @ + 1]
Join == /\ team # NoTeam /\ \A t \in 1..team.T : team.st[t] = "end"
        /\ team' = NoTeam

\* w, r: the threads that wrote and that read some piece of memory in an epoch
ToSet(s) == {s[k] : k \in 1..Len(s)}
NoRace(w, r) == Cardinality(w) <= 1 /\ (w # {} => r \subseteq w)
RaceFree(pat) == \A k \in 1..Len(pat) : NoRace(ToSet(pat[k].w), ToSet(pat[k].r))

\* a whole epoch of a recorded run: every thread arrives once, all at the same kind of point
Epoch(arr, kind, pat) ==
  /\ team # NoTeam
  /\ Len(arr) = team.T /\ ToSet(arr) = 1..team.T /\ Len(kind) = team.T
  /\ Cardinality(ToSet(kind)) = 1                    \* otherwise some would wait for ever
  /\ RaceFree(pat)
  /\ team' = IF kind[1] = "end" THEN NoTeam ELSE [team EXCEPT !.ep = @ + 1]
=============================================================================
