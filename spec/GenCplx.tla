------------------------------- MODULE GenCplx -------------------------------
(* Straight-line programs over three complex variables whose exact results
   stay small.  For TLC's simulation mode: first the kind of the next
   instruction is chosen, then the instruction, so that every kind is as
   likely as the others; a program of full length is printed once.           *)
EXTENDS Cplx, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
K == {-3, -2, -1, 0, 1, 2, 4}
All == Instrs(K) \cup Consts(K)
Ops == {g.op : g \in All}
ByOp == [o \in Ops |-> {g \in All : g.op = o}]
VARIABLES r, prog, kind
Small(z) == Abs(z.re) <= 2000 /\ Abs(z.im) <= 2000
Usable(g, q) == Enabled(g, q) /\ (g.d = 0 \/ Small(Value(g, q)))
\* the instructions of the chosen kind that can be used here; if there is none, start over with a constant
Cand(o, q) == LET u == {g \in ByOp[o] : Usable(g, q)} IN IF u = {} THEN {I("set", 1, 0, 0, 2, -3), I("set", 2, 0, 0, 4, 2), I("set", 3, 0, 0, -6, 0)} ELSE u
Init == /\ prog = <<>> /\ kind = "set" /\ r = [k \in Regs |-> Z(0, 0)]
Kind == kind = "" /\ Len(prog) < Depth /\ kind' \in Ops /\ UNCHANGED <<r, prog>>
Instr == /\ kind # "" /\ Len(prog) < Depth
         /\ \E g \in IF Len(prog) < 3 THEN {I("set", Len(prog) + 1, 0, 0, x, y) : x \in -6..6, y \in -6..6} ELSE Cand(kind, r) :
              /\ prog' = Append(prog, g)
              /\ r' = IF g.d = 0 THEN r ELSE [r EXCEPT ![g.d] = Value(g, r)]
         /\ kind' = IF Len(prog) < 2 THEN "set" ELSE ""
Done == Len(prog) = Depth /\ kind # "done" /\ kind' = "done" /\ UNCHANGED <<r, prog>> /\ PrintT(ToJson(prog))
Next == Kind \/ Instr \/ Done
Spec == Init /\ [][Next]_<<r, prog, kind>>
=============================================================================
