------------------------------- MODULE GenLife -------------------------------
(* Random walks of the API machine itself: the actions of OTFFT.tla over four
   objects of all kinds, with failing allocations, inputs of every sort and
   results transformed further.  For TLC's simulation mode; a walk of full
   length is printed once.  What is printed is a legal use of the library,
   because only the specification's own actions are taken.                   *)
EXTENDS OTFFT, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.LCFG)      \* cpu, depth, lens (per kind), few (lengths per walk), fail (percent), x (percent)
Depth == Cfg.depth
Rnd(S) == RandomElement(S)
VARIABLES script, pool                  \* pool: the lengths this walk uses, few enough to meet again
lvars == <<cpu, objs, buf, script, pool>>

NZP == {p \in (-4..4) \X (-4..4) : p # <<0, 0>>}
NZ  == (-3..3) \ {0}
RT(ty, i, c) == T(ty, i, c[1], c[2], 0, 0, 0)
CT(ty, i, c) == T(ty, i, c[1], -c[2], 0, 0, 0)
RD(i, a) == T("d", i, a, 0, 0, 0, 0)
\* a few inputs on which the operation is defined
Sigs(kind, n, op) ==
  LET fwd == op \in FwdOps IN
  CASE kind \in {"C", "B"} /\ n = 1 -> {<<RT("d", 0, c)>> : c \in {Rnd(NZP)}}
    [] kind \in {"C", "B"} /\ n > 1 ->
         (IF Odd(n) THEN {<<RT("q", i, c), RT("d", j, d)>> : i \in {Rnd(0..n-1)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, d \in {Rnd(NZP)}}
                         \cup {<<RT("r", i, c), RT("t", j, d)>> : i \in {Rnd(0..n-1)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, d \in {Rnd(NZP)}}
          ELSE {<<RT("p", i, c), RT("d", j, d)>> : i \in {Rnd(-40..40)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, d \in {Rnd(NZP)}}
               \cup {<<RT("m", i, c), RT("t", j, d)>> : i \in {Rnd(-40..40)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, d \in {Rnd(NZP)}})
    [] kind = "R" /\ fwd ->
         {<<RT("p", i, c), CT("m", -i, c), RD(j, a)>> : i \in {Rnd(-40..40)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, a \in {Rnd(NZ)}}
         \cup {<<RT("t", i, c), CT("t", (n - i) % n, c), RD(j, a)>> : i \in {Rnd(0..n-1)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, a \in {Rnd(NZ)}}
    [] kind = "R" /\ ~fwd ->
         {<<RT("p", i, c), CT("m", i, c), RT("d", j, d), CT("d", (n - j) % n, d)>> : i \in {Rnd(-40..40)}, j \in {Rnd(0..n-1)}, c \in {Rnd(NZP)}, d \in {Rnd(NZP)}}
    [] kind = "D" ->
         {<<T(IF fwd THEN "Dc" ELSE "Ds", i, a, 0, 0, 0, 0), T("Dd", j, b, 0, 0, 0, 0)>> : i \in {Rnd(0..n-1)}, j \in {Rnd(0..n-1)}, a \in {Rnd(NZ)}, b \in {Rnd(NZ)}}

Sources(kind, n, op, cur) ==
     {<<"L", s>> : s \in Sigs(kind, n, op)}
  \cup {<<"R", s, e>> : s \in {Rnd(1..3)}, e \in {0}}
  \cup {<<"R", s, e>> : s \in {Rnd(1..3)}, e \in {Rnd({-400, -30, 1, 60, 400})}}
  \cup (IF Rnd(1..4) = 1 THEN {<<Rnd({"F", "I", "Z"})>>} ELSE {})
  \cup (IF cur.side # "none" /\ cur.sig # <<>> /\ (kind = "R" => cur.side = (IF op \in FwdOps THEN "time" ELSE "freq"))
           /\ Proper(kind, n, op, cur.sig) THEN {<<"K">>} ELSE {})
Content(o, src) == CASE src[1] = "K" -> buf[o]
                     [] src[1] = "L" -> [side |-> "user", sig |-> src[2], key |-> <<"L">>]
                     [] OTHER -> [side |-> "user", sig |-> <<>>, key |-> <<>>]
Say(s) == script' = Append(script, s) /\ UNCHANGED pool
Len1(kind) == {pool[kind][k] : k \in {Rnd(1..Len(pool[kind]))}}

LInit == cpu = Cfg.cpu /\ Init /\ script = <<>> /\ pool = <<>>
LPool == /\ pool = <<>>
         /\ pool' = [k \in Kinds |-> [j \in 1..Cfg.few |-> Cfg.lens[k][Rnd(1..Len(Cfg.lens[k]))]]]
         /\ UNCHANGED <<cpu, objs, buf, script>>
LCreate(o) == /\ objs[o].st = "none"
              /\ \E kind \in {Rnd(Kinds)} : \E n \in Len1(kind) : \E req \in {Rnd(Requests)} : \E fail \in {Rnd(1..100) <= Cfg.fail} :
                 \E be \in Backends \cup {"none"} : \E res \in {"ok", "bad_alloc", "domain_error"} :
                    /\ Create(o, kind, n, req, fail, res, be)
                    /\ Say([e |-> "create", o |-> o, kind |-> kind, n |-> n, req |-> req, fail |-> IF fail THEN 1 ELSE 0])
LSetup(o) == /\ objs[o].st # "none"
             /\ \E n \in Len1(objs[o].kind) : \E fail \in {IF Rnd(1..100) <= Cfg.fail THEN Rnd(1..9) ELSE 0} :
                   /\ Setup(o, n, fail > 0, IF fail > 0 THEN "bad_alloc" ELSE "ok")
                   /\ Say([e |-> "setup", o |-> o, n |-> n, fail |-> fail])
LDestroy(o) == Destroy(o) /\ Say([e |-> "destroy", o |-> o])
LXform(o) == /\ objs[o].st = "ready" /\ objs[o].n >= 1
             /\ \E op \in {Rnd(OpsOf(objs[o].kind))} : \E src \in Sources(objs[o].kind, objs[o].n, op, buf[o]) : \E fl \in {Rnd(0..5)} :
                   /\ Xform(o, op, Content(o, src))
                   /\ Say([e |-> "x", o |-> o, op |-> op, src |-> src, fl |-> fl])
LEnv == Say([e |-> "env", fill |-> Rnd(0..2), guard |-> 0, thr |-> Rnd(1..4)]) /\ UNCHANGED <<cpu, objs, buf>>
\* one kind of step is drawn, then the object; a draw that is impossible here is drawn again
LDone == Len(script) = Depth /\ pool # <<"done">> /\ pool' = <<"done">> /\ PrintT(ToJson(script)) /\ UNCHANGED <<cpu, objs, buf, script>>
LNext == \/ LPool \/ LDone
         \/ /\ pool # <<>> /\ Len(script) < Depth
            /\ \E a \in {Rnd(1..100)} :
                 IF a <= Cfg.x THEN \E o \in Objs : LXform(o)
                 ELSE IF a <= Cfg.x + (100 - Cfg.x) \div 3 THEN \E o \in Objs : LCreate(o)
                 ELSE IF a <= 98 - (100 - Cfg.x) \div 5 THEN \E o \in Objs : LSetup(o)
                 ELSE IF a <= 98 THEN \E o \in Objs : LDestroy(o)
                 ELSE LEnv
         \/ /\ pool # <<>> /\ Len(script) < Depth /\ UNCHANGED lvars
LSpec == LInit /\ [][LNext]_lvars
=============================================================================
