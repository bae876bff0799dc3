---------------------------- MODULE TraceDispatch ----------------------------
(* Trace validation of factory calls on emulated machines.  Each event has
     ran   the back ends whose code was executed during the call
     isa   the instruction set extensions of the instructions executed in the
           library's code during the call
     xcr0  how often XCR0 was read
     exc   0 no exception, 1 std::domain_error, 2 another one
     live  blocks of this object that are alive after the call               *)
EXTENDS Dispatch, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cpu, obj          \* obj: object -> back end
ev == Trace[l]
ToSet(q) == {q[k] : k \in 1..Len(q)}
\* what the machine can execute
Extensions == {"AVX", "AVX2"}
CanExecute(c, x) == CASE x \in Extensions -> Supports(c, x)
                      [] x = "XSAVE" -> MayReadXcr0(c)
                      [] OTHER -> x \in ToSet(c.others)       \* SSE3, FMA, ...
Quiet == /\ \A b \in ToSet(ev.ran) : Supports(cpu, b)
         /\ \A x \in ToSet(ev.isa) : CanExecute(cpu, x)
         /\ ev.xcr0 > 0 => MayReadXcr0(cpu)
TInit == l = 1 /\ cpu = <<>> /\ obj = <<>>
TCpu == ev.e = "cpu" /\ cpu' = ev.cpu /\ Consistent(ev.cpu) /\ obj' = <<>>
TCreate == /\ ev.e = "create" /\ ev.o \notin DOMAIN obj /\ Quiet
           /\ LET b == Choice(cpu, ev.req) IN
              IF b = "none" THEN ev.exc = 1 /\ ev.live = 0 /\ UNCHANGED obj
              ELSE ev.exc = 0 /\ obj' = (ev.o :> b) @@ obj
           /\ UNCHANGED cpu
TUse == /\ ev.e = "use" /\ ev.o \in DOMAIN obj /\ Quiet
        /\ ev.exc = 0 /\ ToSet(ev.ran) = {obj[ev.o]}
        /\ UNCHANGED <<cpu, obj>>
TDestroy == /\ ev.e = "destroy" /\ ev.o \in DOMAIN obj /\ Quiet
            /\ ev.exc = 0 /\ ev.live = 0
            /\ obj' = [x \in DOMAIN obj \ {ev.o} |-> obj[x]]
            /\ UNCHANGED cpu
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TCpu \/ TCreate \/ TUse \/ TDestroy)
TSpec == TInit /\ [][TNext]_<<l, cpu, obj>>
TView == l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
