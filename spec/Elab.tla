-------------------------------- MODULE Elab ---------------------------------
(* Elaboration: runs the actions of OTFFT.tla over a script (which only names
   calls, lengths and inputs) and prints the behaviour: for every transform the
   signal that the user's array must hold afterwards.  A script that is not a
   legal use of the API stops the run.                                       *)
EXTENDS OTFFT, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Cfg    == JsonDeserialize(IOEnv.TCFG)

VARIABLES l
ev == Script[l]
evars == <<cpu, objs, buf, l>>
Content(o) ==
  CASE ev.src[1] = "K" -> buf[o]
    [] ev.src[1] = "L" -> [side |-> "user", sig |-> ev.src[2], key |-> <<"L">>]
    [] OTHER -> [side |-> "user", sig |-> <<>>, key |-> <<>>]
Is(e) == l <= Len(Script) /\ ev.e = e /\ l' = l + 1
EInit == cpu = Cfg.cpu /\ Init /\ l = 1
EReset == Is("reset") /\ objs' = [o \in Objs |-> None] /\ buf' = [o \in Objs |-> NoData] /\ UNCHANGED cpu
ERaw == Is("raw") /\ CreateRaw(ev.o, ev.kind, ev.n, ev.req)
EShare == Is("share") /\ Share(ev.o, ev.of)
EDrop == Is("drop") /\ Drop(ev.o)
ECreate == Is("create") /\ \E res \in {"ok", "domain_error", "bad_alloc"} : \E be \in Backends \cup {"none"} :
              Create(ev.o, ev.kind, ev.n, ev.req, ev.fail > 0, res, be)
ESetup == Is("setup") /\ Setup(ev.o, ev.n, ev.fail > 0, IF ev.fail > 0 THEN "bad_alloc" ELSE "ok")
EDestroy == Is("destroy") /\ Destroy(ev.o)
EXform == /\ Is("x")
          /\ ev.src[1] = "K" => buf[ev.o].side # "none"
          /\ Xform(ev.o, ev.op, Content(ev.o))
          /\ (buf'[ev.o].sig # <<>>) => PrintT(ToJson([l |-> l, x |-> buf'[ev.o].sig]))
ESkip == l <= Len(Script) /\ ev.e \in {"cmp", "lin", "end", "env", "rep", "user", "sched", "par", "job", "endpar"} /\ l' = l + 1 /\ UNCHANGED <<cpu, objs, buf>>
ENext == EReset \/ ERaw \/ EShare \/ EDrop \/ ECreate \/ ESetup \/ EDestroy \/ EXform \/ ESkip
ESpec == EInit /\ [][ENext]_evars
EView == <<l>>
Done == LET d == TLCGet("stats").diameter - 1 IN IF d = Len(Script) THEN TRUE ELSE PrintT(<<"STUCK", d + 1>>) /\ FALSE
=============================================================================
