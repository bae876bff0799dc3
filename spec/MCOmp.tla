-------------------------------- MODULE MCOmp --------------------------------
(* Why it is enough to look at one run per epoch order, with footprints: for
   every small program of T threads (with data-dependent addresses), if the
   footprints of the epoch, taken from ONE sequential run of the threads, are
   race free in the sense of Omp!NoRace, then every interleaving of the single
   accesses ends with the same memory, and has the same footprints.

   A program of a thread is a sequence of instructions
     <<"r", a>>       reg := reg + mem[a]
     <<"w", a>>       mem[a] := reg + own number
     <<"x", a, b>>    mem[a or b] := 1, the address taken from the parity of reg
     <<"c", a, b>>    reg := mem[a or b], the address taken from the parity of reg *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Len0, Locs
NoRace(w, r) == Cardinality(w) <= 1 /\ (w # {} => r \subseteq w)

Threads == 1..T
Instr == {<<"r", a>> : a \in Locs} \cup {<<"w", a>> : a \in Locs}
         \cup {<<"x", a, b>> : a \in Locs, b \in Locs} \cup {<<"c", a, b>> : a \in Locs, b \in Locs}
Progs == UNION {[1..k -> Instr] : k \in 0..Len0}

VARIABLES prog, mem, pc, reg, fw, fr
vars == <<prog, mem, pc, reg, fw, fr>>

Addr(i, r) == IF Len(i) = 2 THEN i[2] ELSE IF r % 2 = 0 THEN i[2] ELSE i[3]
Mod(v) == v % 5
\* one instruction of thread t on state s = [mem, pc, reg, fw, fr]
StepOf(s, t) ==
  LET i == prog[t][s.pc[t]] a == Addr(i, s.reg[t]) IN
  CASE i[1] \in {"r", "c"} ->
       [s EXCEPT !.pc[t] = @ + 1, !.reg[t] = IF i[1] = "r" THEN Mod(@ + s.mem[a]) ELSE s.mem[a], !.fr[a] = @ \cup {t}]
    [] OTHER ->
       [s EXCEPT !.pc[t] = @ + 1, !.mem[a] = IF i[1] = "w" THEN Mod(s.reg[t] + t) ELSE 1, !.fw[a] = @ \cup {t}]
RECURSIVE Solo(_, _)
Solo(s, t) == IF s.pc[t] > Len(prog[t]) THEN s ELSE Solo(StepOf(s, t), t)
RECURSIVE Serial(_, _)
Serial(s, t) == IF t > T THEN s ELSE Serial(Solo(s, t), t + 1)
Mem0 == [a \in Locs |-> Mod(a + 1)]
Start == [mem |-> Mem0, pc |-> [t \in Threads |-> 1], reg |-> [t \in Threads |-> 0],
          fw |-> [a \in Locs |-> {}], fr |-> [a \in Locs |-> {}]]
Final == Serial(Start, 1)
RaceFreeSerial == \A a \in Locs : NoRace(Final.fw[a], Final.fr[a])

Init == /\ prog \in [Threads -> Progs]
        /\ RaceFreeSerial
        /\ mem = Start.mem /\ pc = Start.pc /\ reg = Start.reg /\ fw = Start.fw /\ fr = Start.fr
Cur == [mem |-> mem, pc |-> pc, reg |-> reg, fw |-> fw, fr |-> fr]
Do(t) == /\ pc[t] <= Len(prog[t])
         /\ LET n == StepOf(Cur, t) IN mem' = n.mem /\ pc' = n.pc /\ reg' = n.reg /\ fw' = n.fw /\ fr' = n.fr
         /\ UNCHANGED prog
Next == \E t \in Threads : Do(t)
Spec == Init /\ [][Next]_vars
AllDone == \A t \in Threads : pc[t] > Len(prog[t])
SameResult == AllDone => /\ mem = Final.mem /\ reg = Final.reg /\ fw = Final.fw /\ fr = Final.fr
=============================================================================
