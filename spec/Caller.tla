------------------------------- MODULE Caller --------------------------------
(* What belongs to the user and not to the library: the state of the calling
   thread (rounding mode, flush and denormal modes, exception masks, x87
   control word, signal mask), the OpenMP settings, the threads of the process
   and its standard streams.  The user changes it; a call only borrows it.    *)
EXTENDS Integers, Sequences

VARIABLE caller      \* [mx, cw, sm: thread; th, dy, ml, sk, sc: OpenMP; top: largest thread count allowed so far; in: called from a parallel region]

NoCaller == [mx |-> 0, cw |-> 0, sm |-> "", th |-> 0, dy |-> 0, ml |-> 0, sk |-> 0, sc |-> 0]
Nobody   == [st |-> NoCaller, top |-> 0, par |-> 0, used |-> 0]

Max2(a, b) == IF a > b THEN a ELSE b
\* the user sets st, and will call from inside a parallel region of `par' threads (0: from none)
UserSets(st, par) == caller' = [st |-> st, top |-> Max2(caller.top, st.th), par |-> par, used |-> Max2(caller.used, par)]
\* after a call: the caller's state is the one he left, also that of the worker threads of his pool
Leaves(st, workers) == /\ st = caller.st
                       /\ \A k \in 1..Len(workers) : workers[k] = caller.st.mx
\* threads of the process: no more than the user allowed (nested teams are not counted)
Frugal(nt) == caller.used = 0 => nt <= Max2(1, caller.top)
Silent(io) == io = 0
\* IEEE exception flags, as in MXCSR: 1 invalid, 4 divide by zero, 8 overflow
NoTrap(fx) == fx % 2 = 0 /\ (fx \div 4) % 4 = 0
=============================================================================
