------------------------------ MODULE GenCplx1 -------------------------------
(* Every single instruction, up to the names of the variables, with every
   choice of small operands for which the exact result is determined: each
   of the three variables takes all values if the instruction reads it.      *)
EXTENDS Cplx, TLC, Json, IOUtils
B == atoi(IOEnv.BOUND)
V == {Z(x, y) : x \in -B..B, y \in -B..B}
Dummy == Z(1, -1)
\* variables are named in the order of their first use: d, a, b
Canon(g) == /\ g.d \in {0, 1}
            /\ g.a = 0 \/ g.a <= (IF g.d = 0 THEN 1 ELSE 2)
            /\ g.b = 0 \/ g.b <= (IF g.a > g.d THEN g.a ELSE g.d) + 1
Reads(g, k) == \/ g.a = k \/ g.b = k
               \/ g.d = k /\ g.op \in Assign2 \cup {"rmul=", "rdiv=", "rmulRe=", "rmulIm=", "rdivRe=", "rdivIm="}
Is1 == {g \in Instrs({-3, -2, -1, 0, 1, 2, 4}) \cup Consts({-1, 0, 2}) : Canon(g)}
VARIABLES g, r
Init == /\ g \in Is1
        /\ r \in [Regs -> V \cup {Dummy}]
        /\ \A k \in Regs : IF Reads(g, k) THEN r[k] \in V ELSE r[k] = Dummy
        /\ Enabled(g, r)
        /\ PrintT(ToJson([g |-> g, r |-> <<r[1].re, r[1].im, r[2].re, r[2].im, r[3].re, r[3].im>>]))
Next == UNCHANGED <<g, r>>
Spec == Init /\ [][Next]_<<g, r>>
=============================================================================
