------------------------------ MODULE MCOTFFT --------------------------------
(* The API machine itself, exhaustively for small constants: every machine the
   dispatch tells apart, two objects, all kinds, a few lengths, every failure,
   all operations on a set of signals and on their results.  The properties
   that follow from the specification alone are checked here.                *)
EXTENDS OTFFT, TLC
CONSTANTS Lens, Small, Deep             \* Small: one machine, one input per call; Deep: how often a result is transformed further
Machine(s, a, a2, os) == [leaf1 |-> TRUE, leaf7 |-> a2, sse2 |-> s, xsave |-> a \/ os, osxsave |-> os, avx |-> a, avx2 |-> a2, ymm |-> os]
Machines == {Machine(FALSE, FALSE, FALSE, FALSE), Machine(TRUE, FALSE, FALSE, FALSE), Machine(TRUE, TRUE, FALSE, TRUE),
             Machine(TRUE, TRUE, TRUE, FALSE), Machine(TRUE, TRUE, TRUE, TRUE)}
Inputs(kind, n, op) ==
  IF n = 0 THEN {} ELSE
  LET fwd == op \in FwdOps
      d(i, a, b) == T("d", i, a, b, 0, 0, 0)
  IN
  CASE kind \in {"C", "B"} -> {<<d(0, 1, 2)>>, <<T("t", n - 1, 1, 0, 0, 0, 0), d(n - 1, 0, -1)>>}
                              \cup (IF Odd(n) THEN {<<T("q", 1, 1, 1, 0, 0, 0)>>} ELSE {<<T("p", 1, 1, 1, 0, 0, 0)>>})
    [] kind = "R" -> IF fwd THEN {<<d(n - 1, 2, 0)>>, <<T("p", 1, 1, 2, 0, 0, 0), T("m", -1, 1, -2, 0, 0, 0)>>}
                     ELSE {<<d(0, 1, 0), d(n \div 2, -1, 0)>>, <<T("p", 1, 1, 2, 0, 0, 0), T("m", 1, 1, -2, 0, 0, 0)>>}
    [] kind = "D" -> {<<T("Dd", n - 1, 2, 0, 0, 0, 0), T(IF fwd THEN "Dc" ELSE "Ds", 1 % n, 1, 0, 0, 0, 0)>>}

mvars == <<cpu, objs, buf>>
MInit == cpu \in (IF Small THEN {Machine(TRUE, TRUE, TRUE, TRUE)} ELSE Machines) /\ Init
MCreate == \E o \in Objs, kind \in Kinds, n \in Lens, req \in Requests, fail \in BOOLEAN, res \in {"ok", "domain_error", "bad_alloc"}, be \in Backends \cup {"none"} :
              Create(o, kind, n, req, fail, res, be)
MSetup == \E o \in Objs, n \in Lens, fail \in BOOLEAN, res \in {"ok", "bad_alloc"} : Setup(o, n, fail, res)
MDestroy == \E o \in Objs : Destroy(o)
Fresh(s) == [side |-> "user", sig |-> s, key |-> <<>>]
Some(S) == IF Small /\ S # {} THEN {CHOOSE s \in S : TRUE} ELSE S
Sources(o, op) == {Fresh(s) : s \in Some(Inputs(objs[o].kind, objs[o].n, op))} \cup
                  (IF /\ buf[o].side # "none" /\ Len(buf[o].key) <= Deep
                      /\ objs[o].kind = "R" => buf[o].side = (IF op \in FwdOps THEN "time" ELSE "freq")
                      /\ Proper(objs[o].kind, objs[o].n, op, buf[o].sig) THEN {buf[o]} ELSE {})
MXform == \E o \in Objs : objs[o].st = "ready" /\ \E op \in OpsOf(objs[o].kind) : \E in \in Sources(o, op) : Xform(o, op, in)
MRaw == \E o \in Objs, kind \in {"C", "D"}, n \in Lens, be \in Backends : CreateRaw(o, kind, n, be)
MShare == \E o, p \in Objs : Share(o, p)
MDrop == \E o \in Objs : Drop(o)
MNext == MRaw \/ MShare \/ MDrop \/ MCreate \/ MSetup \/ MDestroy \/ MXform
MSpec == MInit /\ [][MNext]_mvars
\* how an array came to its content matters only for how much further it is transformed
MView == <<cpu, objs, [o \in Objs |-> <<buf[o].side, buf[o].sig, Len(buf[o].key)>>]>>

---------------------------------------------------------------------------
TypeOK == \A o \in Objs : /\ objs[o].st \in {"none", "ready", "broken"}
                          /\ buf[o].side \in {"none", "time", "freq"}
                          /\ objs[o].st = "none" => objs[o] = None /\ buf[o] = NoData
                          /\ objs[o].st = "broken" => buf[o] = NoData
\* no object exists that this machine cannot run, or of a length its kind is not for
Supported == \A o \in Objs : objs[o].st # "none" => Supports(cpu, objs[o].be) /\ LegalLen(objs[o].kind, objs[o].n)
\* every object can be destroyed and can be set up, in any state; a transform needs a finished setup
\* (once nobody else uses it; and any other user can go at any time)
AlwaysOut == \A o \in Objs : /\ (objs[o].st # "none" /\ objs[o].of = 0 /\ Alone(o)) =>
                                   /\ ENABLED Destroy(o)
                                   /\ \A n \in Lens : LegalLen(objs[o].kind, n) => ENABLED Setup(o, n, FALSE, "ok")
                             /\ objs[o].of # 0 => ENABLED Drop(o)
\* a handle and its object never disagree, whatever happens meanwhile: what a handle's user sees cannot change under him
Agree == \A o \in Objs : objs[o].of # 0 => /\ objs[objs[o].of] = [objs[o] EXCEPT !.of = 0]
                                           /\ objs[o].st = "ready" /\ Sharable(objs[o])
\* whatever an array holds: each cancelling pair that applies brings it back, and the two names of an operation agree
CanonS(n, s) == [k \in 1..Len(s) |-> Canon(n, s[k])]
Back == \A o \in Objs : LET n == objs[o].n kd == objs[o].kind s == buf[o].sig IN
          buf[o].side # "none" =>
            /\ \A a, b \in OpsOf(kd) : (Cancel(a, b) /\ Applicable(kd, n, a, s)) => CanonS(n, Out(kd, n, b, Out(kd, n, a, s))) = CanonS(n, s)
            /\ \A a \in OpsOf(kd) : Applicable(kd, n, a, s) => Out(kd, n, a, s) = Out(kd, n, Alias(a), s)
\* what the user gets stays in the domain: real objects give Hermitian spectra and real signals
Domain == \A o \in Objs : objs[o].kind = "R" => CASE buf[o].side = "freq" -> IsHermitian(objs[o].n, buf[o].sig)
                                                  [] buf[o].side = "time" -> IsReal(objs[o].n, buf[o].sig)
                                                  [] OTHER -> TRUE
\* a call touches its own object and array only; the machine never changes; a transform changes no configuration
Local == [][\E o \in Objs : \A p \in Objs \ {o} : objs'[p] = objs[p] /\ buf'[p] = buf[p]]_mvars
Fixed == [][cpu' = cpu]_mvars
\* an object comes into being with the back end that the request gives on this machine, and keeps it
Keeps == [][\A o \in Objs : /\ (objs[o].st = "none" /\ objs'[o].st # "none" /\ ~objs'[o].raw /\ objs'[o].of = 0) => \E r \in Requests : objs'[o].be = Choice(cpu, r) /\ objs'[o].st = "ready"
                            /\ (objs[o].st # "none" /\ objs'[o].st # "none") => objs'[o].be = objs[o].be /\ objs'[o].kind = objs[o].kind]_mvars
\* a transform happens on objects whose last setup succeeded, changes no configuration, and yields what its rule says for
\* this kind, length and operation from the array's content or an input: no other object, no earlier call has a part in it
Function == [][\A o \in Objs : (buf'[o] # buf[o] /\ buf'[o].side # "none") =>
                 /\ objs' = objs /\ objs[o].st = "ready"
                 /\ LET op == buf'[o].key[Len(buf'[o].key)] IN
                    \E in \in Sources(o, op) : buf'[o].sig = Out(objs[o].kind, objs[o].n, op, in.sig)]_mvars
=============================================================================
