------------------------------ MODULE Dispatch ------------------------------
(* Which back end a factory call must give, from what the processor and the
   operating system report.  A cpu is a record of booleans:
     leaf1, leaf7   the CPUID leaves exist
     sse2, xsave, osxsave, avx, avx2   the feature bits
     ymm            XCR0 has the SSE and AVX state bits set (OS support)     *)
EXTENDS Naturals

Backends == {"SSE2", "AVX", "AVX2"}
Requests == Backends \cup {"AUTO"}

\* bits as the architecture allows them to be combined
Consistent(c) ==
  /\ (c.leaf7 => c.leaf1)
  /\ (c.osxsave => c.xsave)                 \* the OS can only enable what exists
  /\ (c.ymm => c.osxsave)                   \* XCR0 exists only then
  /\ (c.avx => c.xsave /\ c.sse2)           \* AVX needs XSAVE
  /\ (c.avx2 => c.avx /\ c.leaf7)
  /\ (~c.leaf1 => ~c.sse2 /\ ~c.xsave /\ ~c.avx)

Supports(c, be) ==
  CASE be = "SSE2" -> c.leaf1 /\ c.sse2
    [] be = "AVX"  -> c.leaf1 /\ c.avx /\ c.osxsave /\ c.ymm
    [] be = "AVX2" -> c.leaf1 /\ c.leaf7 /\ c.avx2 /\ c.avx /\ c.osxsave /\ c.ymm

Best(c) == IF Supports(c, "AVX2") THEN "AVX2"
           ELSE IF Supports(c, "AVX") THEN "AVX"
           ELSE IF Supports(c, "SSE2") THEN "SSE2" ELSE "none"
\* the back end of the object, or "none" if the call must throw
Choice(c, req) == IF req = "AUTO" THEN Best(c) ELSE IF Supports(c, req) THEN req ELSE "none"

\* XGETBV may be executed only if the OS has enabled it
MayReadXcr0(c) == c.osxsave
=============================================================================
