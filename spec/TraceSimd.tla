------------------------------ MODULE TraceSimd ------------------------------
(* Trace validation of simd_array / simd_malloc histories.  Each event carries
   what was observed after the operation: exc (0 none, 1 std::bad_alloc,
   2 something else), p (the pointer is not null), al (the pointer's
   alignment, at most 4096), q (elements the block has room for, -1: no such
   block), live (blocks alive in total), bad (releases of what is not alive),
   ok (elements read back as expected, nothing outside was written).          *)
EXTENDS Simd, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Align == atoi(IOEnv.ALIGN)
VARIABLE l
ev == Trace[l]
Observed == /\ ev.bad = 0 /\ ev.ok = 1 /\ ev.live = Blocks(arr')
            /\ ev.p = IF arr'[ev.s].st = "held" THEN 1 ELSE 0
            /\ arr'[ev.s].st = "held" => /\ ev.al % Align = 0
                                         /\ ev.q >= arr'[ev.s].n
TInit == InitArr /\ l = 1
TReset == ev.e = "reset" /\ arr' = [s \in Slots |-> None]
TOp == /\ ev.e = "op"
       /\ Do(ev)
       /\ ev.exc = (IF Throws(ev) THEN 1 ELSE 0)
       /\ Observed
\* a request for more elements than there is memory: what is asked for is observed, and that it fails
TBig == /\ ev.e = "big"
        /\ ev.fail = 1
        /\ Do(ev)
        /\ ev.exc = (IF Throws(ev) THEN 1 ELSE 0) /\ ev.asked >= ev.n
        /\ Observed
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TOp \/ TBig)
TSpec == TInit /\ [][TNext]_<<arr, l>>
TView == l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
