----------------------------- MODULE GenDispatch -----------------------------
(* Every machine the architecture allows, in every way it can report itself:
   the largest CPUID leaf, the state bits of XCR0, the other feature bits.    *)
EXTENDS Dispatch, TLC, Json
VARIABLE m
Fields == {"leaf1", "leaf7", "sse2", "xsave", "osxsave", "avx", "avx2", "ymm"}
Machines == {x \in [cpu : [Fields -> BOOLEAN], max : {0, 1, 2, 6, 7, 13, 31}, xcr : {0, 1, 3, 7, 231}, others : {"none", "all", "mixed"}] :
              /\ Consistent(x.cpu)
              /\ x.cpu.leaf1 = (x.max >= 1) /\ x.cpu.leaf7 = (x.max >= 7)
              /\ IF x.cpu.osxsave THEN x.cpu.ymm = (x.xcr \in {7, 231}) /\ x.xcr # 0 ELSE x.xcr = 0}
Init == m \in Machines /\ PrintT(ToJson(m))
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
=============================================================================
