------------------------------ MODULE TraceCplx ------------------------------
(* Trace validation of compiled programs over complex_t. *)
EXTENDS Cplx, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
RegsOf(q) == [k \in Regs |-> Z(q[2*k - 1], q[2*k])]
TInit == l = 1 /\ r = [k \in Regs |-> Z(0, 0)]
TStart == Is("start") /\ r' = RegsOf(ev.r)
Effect(g) == IF g.d = 0 THEN UNCHANGED r ELSE r' = [r EXCEPT ![g.d] = Value(g, r)]
TOp == /\ Is("op")
       /\ LET g == ev.g IN
          /\ Enabled(g, r)
          /\ ev.err <= Slack(g, r)
          /\ (g.d = 0) => ev.out = RealValue(g, r)
          /\ Effect(g)
          /\ RegsOf(ev.r) = r'
\* executed between two observations
TSilent == Is("run") /\ Enabled(ev.g, r) /\ Effect(ev.g)
TApprox == Is("approx") /\ ev.u <= Bound(ev.op) /\ UNCHANGED r
TNext == TStart \/ TOp \/ TSilent \/ TApprox
TSpec == TInit /\ [][TNext]_<<l, r>>
TView == l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
