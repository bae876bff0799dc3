------------------------------ MODULE MCDispatch -----------------------------
(* The choice itself, over every combination of reported features: what is
   chosen is supported; AUTO is answered whenever anything is supported and
   with nothing better left over; more features never give less.             *)
EXTENDS Dispatch, FiniteSets
VARIABLES c, d
Fields == {"leaf1", "leaf7", "sse2", "xsave", "osxsave", "avx", "avx2", "ymm"}
Cpus == {f \in [Fields -> BOOLEAN] : Consistent(f)}
Rank(be) == CASE be = "none" -> 0 [] be = "SSE2" -> 1 [] be = "AVX" -> 2 [] be = "AVX2" -> 3
Init == c \in Cpus /\ d \in Cpus
Next == UNCHANGED <<c, d>>
Spec == Init /\ [][Next]_<<c, d>>
Sound == \A r \in Requests : Choice(c, r) # "none" => Supports(c, Choice(c, r))
Exact == \A r \in Backends : Choice(c, r) \in {r, "none"} /\ (Choice(c, r) = "none" <=> ~Supports(c, r))
Auto  == \A b \in Backends : Supports(c, b) => Rank(Choice(c, "AUTO")) >= Rank(b)
Mono  == (\A f \in Fields : c[f] => d[f]) => \A r \in Requests : Rank(Choice(c, r)) <= Rank(Choice(d, r))
\* a machine that can run a back end can run everything that back end executes
Nested == (Supports(c, "AVX2") => Supports(c, "AVX")) /\ (Supports(c, "AVX") => Supports(c, "SSE2"))
NoXgetbv == ~MayReadXcr0(c) => ~Supports(c, "AVX") /\ ~Supports(c, "AVX2")
=============================================================================
