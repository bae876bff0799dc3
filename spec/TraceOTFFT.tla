----------------------------- MODULE TraceOTFFT ------------------------------
(* Trace validation: is what the real library did a behaviour of OTFFT.tla?
   One line of the trace per call (or observation); the first line that no
   action explains is the rejected one.  The configuration file says which
   observations are bound (those the property under check is about); the life
   cycle, the dispatch and the abstract contents are always bound.           *)
EXTENDS OTFFT, Omp, Caller, TLC, Json, IOUtils

Cfg   == JsonDeserialize(IOEnv.TCFG)
Focus == {Cfg.focus[k] : k \in 1..Len(Cfg.focus)}
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,               \* next line
          memo,            \* results seen in this case: what call on what input gave which bits
          heap,            \* live library blocks per object
         conc             \* user threads that run at the same time: 0 (none) or their number

tvars == <<cpu, objs, buf, l, memo, heap, team, conc, caller>>
ev == Trace[l]
Is0(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
\* calls of the user: no parallel region is open when they return
IsU(e) == Is0(e) /\ team = NoTeam /\ UNCHANGED <<team, conc>>
Is(e) == IsU(e) /\ UNCHANGED caller
In(f) == f \in Focus
NoBlocks == [o \in Objs |-> 0]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

TInit == /\ cpu = Cfg.cpu
         /\ Init
         /\ l = 1 /\ memo = <<>> /\ heap = NoBlocks
         /\ team = NoTeam /\ conc = 0
         /\ caller = Nobody

TReset == /\ IsU("reset") /\ caller' = Nobody
          /\ objs' = [o \in Objs |-> None] /\ buf' = [o \in Objs |-> NoData]
          /\ memo' = (IF In("keep") THEN memo ELSE <<>>)            \* "keep": results are compared across cases (and processes)
          /\ heap' = NoBlocks /\ UNCHANGED cpu

\* what the allocator must show after a call on o: only o's blocks change, all freed blocks were live, canaries intact
HeapOK(o) == (In("heap") /\ conc = 0) => /\ ev.bf = 0 /\ ev.hc = 1
                           /\ ev.tot = SumOver(heap', Objs)
\* where a call may read and write (classes of memory as the driver tells them apart)
Allowed == { <<"own","R">>, <<"own","W">>, <<"given","R">>, <<"given","W">>, <<"const-in","R">>, <<"stack","R">>, <<"stack","W">>,
             <<"rodata","R">>, <<"global","R">>, <<"init","R">>, <<"init","W">>, <<"tls","R">>, <<"tls","W">>, <<"once","R">> }
Confined(fp) == \A k \in 1..Len(fp) : fp[k] \in Allowed
\* a construct of a parallel region outside of any region of the library would involve the caller's team
FootOK == In("foot") \/ In("race") => ev.orph = 0 /\ (In("foot") => Confined(ev.fp))
\* the user's own state around a call that was given finite data
CallerOK(fin) == (In("caller") /\ conc = 0) => /\ Leaves(ev.cl, ev.wk) /\ Frugal(ev.nt) /\ Silent(ev.io)
                                              /\ (fin => NoTrap(ev.fx))

\* bytes moved by the call and bytes held, per element
CostOK(moved, held) == (In("cost") /\ conc = 0) => ev.wb <= moved /\ ev.mb <= held
TCreate == /\ Is("create") /\ FootOK /\ CallerOK(TRUE)
           /\ Create(ev.o, ev.kind, ev.n, ev.req, ev.fl > 0, ev.res, ev.be)
           /\ heap' = [heap EXCEPT ![ev.o] = ev.blk]
           /\ CostOK(SetupWork(ev.kind, ev.n), Memory(ev.kind, ev.n))
           /\ (ev.res # "ok") => (In("heap") => ev.blk = 0)      \* a failed create leaves nothing behind
           /\ HeapOK(ev.o)
           /\ UNCHANGED memo
\* objects without work arrays of their own; handles of further users of an object
TRaw == /\ Is("raw") /\ FootOK /\ ev.res = "ok"
        /\ CreateRaw(ev.o, ev.kind, ev.n, ev.req)
        /\ heap' = [heap EXCEPT ![ev.o] = ev.blk] /\ HeapOK(ev.o)
        /\ UNCHANGED memo
TShare == Is("share") /\ Share(ev.o, ev.of) /\ UNCHANGED <<memo, heap>>
TDrop == Is("drop") /\ Drop(ev.o) /\ UNCHANGED <<memo, heap>>
TSetup == /\ Is("setup") /\ FootOK /\ CallerOK(TRUE)
          /\ Setup(ev.o, ev.n, ev.fl > 0, ev.res)
          /\ CostOK(SetupWork(objs[ev.o].kind, ev.n), Memory(objs[ev.o].kind, ev.n))
          /\ heap' = [heap EXCEPT ![ev.o] = ev.blk]
          /\ HeapOK(ev.o)
          /\ UNCHANGED memo
TDestroy == /\ Is("destroy") /\ FootOK /\ CallerOK(TRUE)
            /\ Destroy(ev.o)
            /\ heap' = [heap EXCEPT ![ev.o] = ev.blk]
            /\ In("heap") => ev.blk = 0
            /\ HeapOK(ev.o)
            /\ UNCHANGED memo

\* the content the call is applied to
SrcOK(o, op) == ev.src[1] = "K" => /\ buf[o].side # "none"
                                   /\ objs[o].kind = "R" => buf[o].side = (IF op \in FwdOps THEN "time" ELSE "freq")
Content(o) ==
  CASE ev.src[1] = "K" -> buf[o]
    [] ev.src[1] = "L" -> [side |-> "user", sig |-> ev.src[2], key |-> <<"L", ToString(ev.src[2])>>]
    [] ev.src[1] = "R" -> [side |-> "user", sig |-> <<>>, key |-> <<"R", ToString(ev.src[2])>>]   \* the scale is not part of the key
    [] OTHER -> [side |-> "user", sig |-> <<>>, key |-> <<ToString(ev.src)>>]

\* the elements that a NaN at input element j must reach
Depends(kind, n, op, j, k) ==
  CASE kind = "D" /\ op \in FwdOps -> ((2*j + 1) * k) % (2*n) # n
    [] kind = "D" /\ op \in InvOps -> j = 0 \/ ((2*k + 1) * j) % (2*n) # n
    [] OTHER -> TRUE

TXform ==
  /\ Is("x") /\ FootOK /\ CallerOK(ev.fin = 1)
  /\ LET o == ev.o op == ev.op in == Content(o) kind == objs[o].kind n == objs[o].n
         mk == ToString(<<kind, objs[o].raw, objs[o].be, n, in.key, op>>) IN
     /\ SrcOK(o, op)
     /\ Xform(o, op, in)
     /\ (In("share") /\ Sharable(objs[o])) => \A k \in 1..Len(ev.fp) : ev.fp[k][2] = "W" => ev.fp[k][1] \in {"given", "stack", "tls"}
     /\ ev.exp = buf'[o].sig                                 \* the driver compared with what the specification says
     /\ CostOK(Work(kind, n), Memory(kind, n))
     /\ (In("acc") /\ ev.exp # <<>>) => ev.r <= Tol(kind, n)
     /\ (In("input") /\ kind = "R" /\ op \in FwdOps) => ev.in = 1
     /\ (In("herm") /\ kind = "R" /\ op \in FwdOps /\ ev.fin = 1) => ev.herm = 1
     /\ (In("zero") /\ ev.src[1] = "Z") => ev.z = 1
     /\ (In("nan") /\ ev.src[1] = "N") =>
            /\ \A k \in 1..Len(ev.nn) : ~Depends(kind, n, op, ev.src[3], ev.nn[k])
            /\ kind # "D" => ev.nnc = 0
     /\ In("memo") => ev.rd = 0                              \* calls repeated on the same content: bits that differ from the first
     /\ In("can") => (ev.can = 1 /\ ev.hc = 1)
     /\ In("heap") => ev.bf = 0
     /\ IF In("memo")
        THEN IF mk \in DOMAIN memo THEN memo[mk] = ev.h /\ UNCHANGED memo
             ELSE memo' = (mk :> ev.h) @@ memo
        ELSE UNCHANGED memo
  /\ UNCHANGED heap

\* two objects of the same kind and length that differ in the back end, after the same call on the same input
TCmp == /\ Is("cmp")
        /\ LET a == objs[ev.a] b == objs[ev.b] IN
           /\ a.st = "ready" /\ b.st = "ready" /\ a.kind = b.kind /\ a.n = b.n
           /\ buf[ev.a].key = buf[ev.b].key
           /\ In("cmp") => ev.r <= Tol(a.kind, a.n)
        /\ UNCHANGED <<cpu, objs, buf, memo, heap>>
\* the result held by c is the sum of those held by a and b (their inputs were R s1, R s2 and their sum)
TLin == /\ Is("lin")
        /\ LET a == objs[ev.a] b == objs[ev.b] c == objs[ev.o] IN
           /\ a.kind = c.kind /\ b.kind = c.kind /\ a.n = c.n /\ b.n = c.n
           /\ In("cmp") => ev.r <= Tol(c.kind, c.n)
        /\ UNCHANGED <<cpu, objs, buf, memo, heap>>
TEnd == /\ Is("end")
        /\ In("heap") => /\ ev.tot = SumOver(heap, Objs) /\ ev.bf = 0 /\ ev.hc = 1
                         /\ (\A o \in Objs : objs[o].st = "none") => ev.tot = 0
        /\ UNCHANGED <<cpu, objs, buf, memo, heap>>

\* the environment (thread count, what fresh memory contains, placement) has no meaning for the specification
TEnv == (Is("env") \/ Is("rep")) /\ UNCHANGED <<cpu, objs, buf, memo, heap>>

\* the user changes his own state, or the place he calls from
TUser == IsU("user") /\ UserSets(ev.cl, ev.par) /\ UNCHANGED <<cpu, objs, buf, memo, heap>>

TSched == Is("sched") /\ UNCHANGED <<cpu, objs, buf, memo, heap>>

\* internal parallel regions
apart == <<cpu, objs, buf, memo, heap, conc, caller>>
TFork  == Is0("fork") /\ Fork(ev.T) /\ UNCHANGED apart
TEpoch == Is0("epoch") /\ Epoch(ev.arr, ev.kind, IF In("race") THEN ev.pat ELSE <<>>) /\ UNCHANGED apart

\* user threads: the calls between par and endpar ran at the same time, each on objects of its own; they are
\* recorded in the order in which they returned, and each must be explained as if it ran alone
TPar == Is0("par") /\ conc = 0 /\ team = NoTeam /\ conc' = 1 /\ UNCHANGED <<cpu, objs, buf, memo, heap, team, caller>>
TJob == Is0("job") /\ conc >= 1 /\ conc' = conc + 1 /\ UNCHANGED <<cpu, objs, buf, memo, heap, team, caller>>
TEndpar == /\ Is0("endpar") /\ conc >= 1 /\ conc' = 0
           /\ Len(ev.arr) = conc - 1                                   \* every user thread came to its end
           /\ In("race") => RaceFree(ev.pat)
           /\ In("foot") => \A k \in 1..Len(ev.fps) : Confined(ev.fps[k].fp)
           /\ \A k \in 1..Len(ev.fps) : ev.fps[k].orph = 0
           /\ UNCHANGED <<cpu, objs, buf, memo, heap, team, caller>>

TNext == TRaw \/ TShare \/ TDrop \/ TEnv \/ TUser \/ TReset \/ TCreate \/ TSetup \/ TDestroy \/ TXform \/ TCmp \/ TLin \/ TEnd \/ TSched \/ TFork \/ TEpoch \/ TPar \/ TJob \/ TEndpar
TSpec == TInit /\ [][TNext]_tvars
TView == <<l>>

\* every line explained; on a rejection the number of explained lines is printed
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
