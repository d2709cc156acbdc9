----------------------------- MODULE ChainTrace -----------------------------
(* Recorded operations on real module chains against Chain.  The state after *)
(* every operation is a function of the operations, so every observation is  *)
(* compared with it; VF_FOCUS selects the observations a property is about.  *)
EXTENDS TraceKit, Chain
VARIABLE s
Focus == IOEnv.VF_FOCUS
About(S) == Focus = "all" \/ Focus \in S

Init == KitInit /\ s = New(Traces[tid].cfg.kind, Traces[tid].cfg.lazy, Traces[tid].cfg.val)

Sel(hk, S) == SelectSeq(hk, LAMBDA h : h[2] \in S)
\* what is observed after every operation; <<>> stands for an object that does not exist
ObsOk(x) ==
    /\ About({"life", "fin", "link", "par"}) => \A i \in DOMAIN E.st : E.st[i] = -1 \/ E.st[i] = x.st[i]
    /\ About({"info", "link", "par"}) => \A i \in DOMAIN E.info : E.info[i] = <<>> \/ E.info[i] = x.info[i]
    /\ About({"info", "fin", "link"}) => \A i \in DOMAIN E.own : E.own[i] = -1 \/ E.own[i] = x.own[i]
    /\ \A i \in DOMAIN E.ci : E.ci[i] = <<>> \/
         /\ About({"info", "link", "par"}) => E.ci[i][1] = x.ci[i].num
         /\ About({"fin"}) => E.ci[i][2] = x.ci[i].fin
    /\ About({"link", "info", "par"}) => \A i \in DOMAIN E.fw : E.fw[i] = -1 \/ E.fw[i] = x.fwd[i]
    /\ About({"link"}) => \A i \in DOMAIN E.io : E.io[i] = <<>> \/
         E.io[i] = <<IF x.kind[i] \in Mixers THEN Len(x.back[i]) ELSE -1,
                     IF x.kind[i] \in {"mixu", "multi"} THEN Len(x.outs[i]) ELSE -1>>
HkOk(r) ==
    /\ About({"life", "link", "par"}) => Sel(E.hk, {HStart, HStop, HFinish}) = Sel(r.hk, {HStart, HStop, HFinish})
    /\ About({"fin", "link"}) => Sel(E.hk, {HFinish, HDone}) = Sel(r.hk, {HFinish, HDone})
    /\ About({"info", "link", "par"}) => Sel(E.hk, {HSync}) = Sel(r.hk, {HSync})
    /\ About({"flow", "link", "par"}) => Sel(E.hk, {HProc}) = Sel(r.hk, {HProc})
BufOk(b) == About({"flow", "link", "par", "up"}) => E.buf = b

Step(name, r) == Is(name) /\ s' = r.s /\ HkOk(r) /\ ObsOk(r.s)
Cfg3 == [sr |-> E.v[1], bs |-> E.v[2], ch |-> E.v[3]]

TLink == /\ Is("link") /\ s' = Link(s, E.a, E.b) /\ (About({"link"}) => E.ret = E.b) /\ ObsOk(s')
         /\ (About({"link"}) => E.fb = E.a)
TSLink == Is("slink") /\ s' = [s EXCEPT !.back[E.a] = <<E.b>>, !.fwd[E.b] = E.a] /\ ObsOk(s')
TNoLink == Is("nolink") /\ s' = s /\ (About({"link"}) => E.ret = 0) /\ ObsOk(s')
TCopy == Is("copy") /\ s' = Copy(s, E.from, E.to) /\ ObsOk(s')
TPar == Is("param") /\ s' = AddParam(s, E.a, E.b)
TSetConst == Is("setconst") /\ s' = Link(s, E.a, E.b) /\ ObsOk(s')
TStart == Step("start", Start(s, E.a))
TStop == Step("stop", Stop(s, E.a))
TFinish == Step("finish", Finish(s, E.a))
TDone == Step("done", R(Done(s, E.a), Hook(s, E.a, HDone)))
TSync == Step("sync", Sync(s, E.a))
TConf == Step("conf", Conf(s, E.a, E.b))
TChain == Is("chain") /\ s' = [s EXCEPT !.ci[E.a] = [@ EXCEPT !.sr = Cfg3.sr, !.bs = Cfg3.bs, !.ch = Cfg3.ch]] /\ ObsOk(s')
TPeriod == Is("period") /\ s' = [s EXCEPT !.per[E.a] = E.n]
TProc == LET r == Proc(s, E.a) IN Step("process", r) /\ BufOk(r.buf)
\* one production by a 1:n mixer, fetched E.n times (each copy is scribbled over after being recorded)
TFetch == LET r == Proc(s, E.a) IN
          /\ Step("fetch", r)
          /\ About({"flow", "link", "up"}) => /\ Len(E.bufs) = E.n
                                              /\ \A i \in 1..E.n : E.bufs[i] = r.buf
Next == TLink \/ TSLink \/ TNoLink \/ TPar \/ TSetConst \/ TStart \/ TStop \/ TFinish \/ TDone \/ TSync \/ TConf
        \/ TChain \/ TPeriod \/ TProc \/ TFetch \/ TCopy
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
