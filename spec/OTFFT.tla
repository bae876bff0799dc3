-------------------------------- MODULE OTFFT --------------------------------
(* The library as its user sees it: transform objects of four kinds that are
   created, set up, used and destroyed, each with the user's array contents.
     kinds:  "C" complex FFT, "R" real FFT, "D" DCT-II, "B" Bluestein FFT
   An object has no state besides its length and back end: what a transform
   yields is a function of (kind, length, operation, input) alone.  This is the
   single source of truth for the generators and for trace validation.        *)
EXTENDS Signal, Dispatch, Cost, FiniteSets

CONSTANTS Objs              \* object identities

VARIABLES cpu,              \* what the machine reports (constant)
          objs,             \* per object: "none" or its configuration
          buf               \* per object: abstract content of the user's array

None   == [st |-> "none", kind |-> "-", n |-> 0, be |-> "none", raw |-> FALSE, of |-> 0]
\* raw: a transform without work arrays of its own (FFT0, DCT0 of the README); of: the object that this handle refers to
Kinds  == {"C", "R", "D", "B"}
\* content of a user array: side "time" or "freq" for the kinds that care, and what it holds
NoData == [side |-> "none", sig |-> <<>>, key |-> <<>>]

\* lengths an object of this kind is specified for (0: not set up yet)
LegalLen(kind, n) == n >= 0 /\ (kind \in {"R", "D"} => n % 2 = 0)

apivars == <<cpu, objs, buf>>

Init == /\ objs = [o \in Objs |-> None]
        /\ buf  = [o \in Objs |-> NoData]

\* ---- life cycle.  `res' is what the call reports, `fail' says that an allocation was made to fail in it
Create(o, kind, n, req, fail, res, be) ==
  /\ objs[o].st = "none"
  /\ LegalLen(kind, n)
  /\ LET ch == Choice(cpu, req) IN
     \/ /\ res = "ok" /\ ~fail /\ ch # "none" /\ be = ch
        /\ objs' = [objs EXCEPT ![o] = [st |-> "ready", kind |-> kind, n |-> n, be |-> be, raw |-> FALSE, of |-> 0]]
     \/ /\ res = "domain_error" /\ ch = "none" /\ be = "none"
        /\ UNCHANGED objs
     \/ /\ res = "bad_alloc" /\ fail /\ ch # "none" /\ be = "none"
        /\ UNCHANGED objs
  /\ buf' = [buf EXCEPT ![o] = NoData]
  /\ UNCHANGED cpu

\* the transforms that take their work arrays from the caller: no choice of a back end, it is named
CreateRaw(o, kind, n, be) ==
  /\ objs[o].st = "none" /\ kind \in {"C", "D"}
  /\ LegalLen(kind, n)
  /\ be \in Backends /\ Supports(cpu, be)
  /\ objs' = [objs EXCEPT ![o] = [st |-> "ready", kind |-> kind, n |-> n, be |-> be, raw |-> TRUE, of |-> 0]]
  /\ buf' = [buf EXCEPT ![o] = NoData]
  /\ UNCHANGED cpu

\* ---- one object for many users: a call on it may change nothing but the caller's arrays, so any number of threads may
\* use it at the same time, each with arrays of its own (a handle).  Nobody sets it up or destroys it meanwhile.
Sharable(ob) == ob.kind = "R" \/ ob.raw
Alone(o) == \A p \in Objs : objs[p].of # o
Share(o, p) ==
  /\ objs[o].st = "none" /\ o # p
  /\ objs[p].st = "ready" /\ objs[p].of = 0 /\ Sharable(objs[p])
  /\ objs' = [objs EXCEPT ![o] = [objs[p] EXCEPT !.of = p]]
  /\ buf' = [buf EXCEPT ![o] = NoData]
  /\ UNCHANGED cpu
Drop(o) ==
  /\ objs[o].of # 0
  /\ objs' = [objs EXCEPT ![o] = None]
  /\ buf' = [buf EXCEPT ![o] = NoData]
  /\ UNCHANGED cpu

Setup(o, n, fail, res) ==
  /\ objs[o].st \in {"ready", "broken"} /\ objs[o].of = 0 /\ Alone(o)
  /\ LegalLen(objs[o].kind, n)
  /\ \/ res = "ok" /\ ~fail /\ objs' = [objs EXCEPT ![o].st = "ready", ![o].n = n]
     \/ res = "bad_alloc" /\ fail /\ objs' = [objs EXCEPT ![o].st = "broken", ![o].n = n]
  /\ buf' = [buf EXCEPT ![o] = NoData]
  /\ UNCHANGED cpu

Destroy(o) ==
  /\ objs[o].st \in {"ready", "broken"} /\ objs[o].of = 0 /\ Alone(o)
  /\ objs' = [objs EXCEPT ![o] = None]
  /\ buf' = [buf EXCEPT ![o] = NoData]
  /\ UNCHANGED cpu

\* ---- what a transform may be applied to
Dir(op) == IF op \in FwdOps THEN "fwd" ELSE "inv"
\* symbolic signals on which the operation's rule is defined
Applicable(kind, n, op, s) ==
  \A k \in 1..Len(s) :
     CASE kind = "D" -> Ty(s[k]) \in (IF op \in FwdOps THEN {"Dd", "Dc"} ELSE {"Dd", "Ds"})
       [] OTHER -> Ty(s[k]) \in (IF Odd(n) THEN {"d", "t", "q", "r"} ELSE {"d", "t", "p", "m"})
Proper(kind, n, op, s) ==
  /\ Applicable(kind, n, op, s)
  /\ kind = "R" => IF op \in FwdOps THEN IsReal(n, s) ELSE IsHermitian(n, s)

\* input `in' is a content record; the array holds the transform afterwards
Result(o, op, in) ==
  [side |-> IF op \in FwdOps THEN "freq" ELSE "time",
   sig  |-> IF in.sig = <<>> THEN <<>> ELSE Out(objs[o].kind, objs[o].n, op, in.sig),
   key  |-> in.key \o <<op>>]
Xform(o, op, in) ==
  /\ objs[o].st = "ready" /\ objs[o].n >= 1        \* the default length 0 only waits for a setup
  /\ op \in OpsOf(objs[o].kind)
  /\ in.sig # <<>> => Proper(objs[o].kind, objs[o].n, op, in.sig)
  /\ buf' = [buf EXCEPT ![o] = Result(o, op, in)]
  /\ UNCHANGED <<cpu, objs>>

\* fwd/fwdn and inv/inv0 are two names of one operation
Alias(op) == IF op = "fwdn" THEN "fwd" ELSE IF op = "inv0" THEN "inv" ELSE op

---------------------------------------------------------------------------
(* How exact a result has to be, in multiples of machine epsilon times the
   largest component of the exact result.                                  *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Strip(_, _)
Strip(n, p) == IF n > 0 /\ n % p = 0 THEN Strip(n \div p, p) ELSE n
\* largest prime factor above 5 (1 if there is none)
RECURSIVE LpfFrom(_, _, _)
LpfFrom(n, d, best) ==
  IF n = 1 THEN best
  ELSE IF d * d > n THEN n
  ELSE IF n % d = 0 THEN LpfFrom(Strip(n, d), d + 2, d)
  ELSE LpfFrom(n, d + 2, best)
Lpf(n) == IF n < 2 THEN 1 ELSE LpfFrom(Strip(Strip(Strip(n, 2), 3), 5), 7, 1)
Pow2(n) == Strip(n, 2) = 1
Tol(kind, n) ==
  \* (Bluestein multiplies with chirps: on an input that is a chirp its error may gather in one element)
  LET lg == Log2(n)
      r == Lpf(n)
      rough == IF r > 1 THEN 2 * r ELSE 0
  IN IF kind = "B" THEN 24 + 10 * lg + 2 ^ ((lg + 1) \div 2) \div 2
     ELSE IF Pow2(n) THEN 24 + 8 * lg
     ELSE IF kind = "D" THEN 80 + 32 * lg + rough
     ELSE 60 + 24 * lg + rough
=============================================================================
