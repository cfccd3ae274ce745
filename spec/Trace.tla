-------------------------------- MODULE Trace --------------------------------
(* Recorded runs of the real editor against the machine.  The file named by
   TRACE has one run per line:
     id cfgs inp disk  and ev, the events:
     new                      the instance was created
     call f t ci lis          a call began; lis: what the listener was told then
     key k pre comp lis p     the filter got key k; pre: what the program did from
                              within it; comp, lis: the completer and the listener
                              were asked since; p: what the painter got last
     ret k t comp lis p blind the call returned
     api ...                  another call of the program
     file path data           the content of a file
     shared what was is       data handed over, before and after
     stops ok left            how often the process was stopped, and in which modes
     crash, hang              never allowed
   The machine is deterministic: every event has at most one successor.          *)
EXTENDS Machine, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, l, st
vars == <<r, l, st>>

Queue(s, e) == [s EXCEPT !.cq = e.comp, !.lq = e.lis]
Asked0(s) ==
    IF s.cq # <<>> THEN Fail(s, "the completer was asked without need")
    ELSE IF s.lq # <<>> THEN Fail(s, "the listener was called without need")
    ELSE s

Painted(s, e) ==
    IF ~e.p.on \/ s.res.k # "none" THEN s
    ELSE IF e.p.line # s.buf THEN Fail(s, "another line is shown")
    ELSE IF e.p.pos # s.pos THEN Fail(s, "the cursor is at another place")
    ELSE s

(* everything written at the same time, in the order it appeared: each writer's
   texts are there once and in its order *)
RaceOrder(e) == \A w \in 1..Len(e.cnt) :
    SelectSeq(e.seq, LAMBDA x : x[1] = w) = [i \in 1..e.cnt[w] |-> <<w, i>>]

(* what the program does while no call is waiting, or from within the filter *)
Api(s, e) ==
    CASE e.f = "save" ->
           LET s1 == RecordLine(s, e.t)
               bad == s.h.fd = "closed" /\ Records(IF s.h.items = <<>> THEN Push(s.h, <<>>) ELSE s.h, e.t)
           IN IF e.err = bad THEN s1
              ELSE Fail(s1, IF bad THEN "SaveHistory reported no error" ELSE "SaveHistory reported an error")
      [] e.f = "reset" -> [s EXCEPT !.h = ClearHistory(@)]
      [] e.f = "enable" -> [s EXCEPT !.h.on = e.b]
      [] e.f = "path" -> NewPath(s, e.path)
      [] e.f = "auto" -> LET c == s.cfgs[e.ci] IN
            [s EXCEPT !.cfgs[s.ci] = [@ EXCEPT !.comp = c.comp, !.cands = c.cands, !.off = c.off], !.c = NoComp, !.s = NoSearch]
      [] e.f = "prompt" -> [s EXCEPT !.prompt = e.t]
      [] e.f = "mask" -> [s EXCEPT !.cfgs[s.ci].mrune = e.n]
      [] e.f = "setbuf" -> Default(s, e.t)
      [] e.f = "vim" -> [s EXCEPT !.cfgs[s.vci].vim = e.b, !.ins = TRUE]
      [] e.f = "isvim" -> IF e.b = VimOn(s) THEN s ELSE Fail(s, "IsVimMode tells another mode")
      [] e.f = "setcfg" -> [SetConfigTo(s, e.ci) EXCEPT !.vci = e.ci]
      [] e.f = "write" -> IF e.n = e.want THEN s ELSE Fail(s, "Write reported another length")
      [] e.f = "race" -> IF e.n # 0 THEN Fail(s, "Write reported another length")
                         ELSE IF RaceOrder(e) THEN s
                         ELSE Fail(s, "what was written is incomplete, broken, repeated or out of order")
      [] e.f = "stdin" -> [s EXCEPT !.inp = IF s.fin THEN @ ELSE Ins(@, Len(@) - e.u, e.t)]
      [] e.f = "width" -> [s EXCEPT !.width = e.n]
      [] e.f = "drop" -> [s EXCEPT !.inp = Drop(@, e.n)]
      [] e.f = "exitsig" -> [s EXCEPT !.fin = TRUE]
      [] e.f = "signal" -> IF e.n = e.want THEN s ELSE Fail(s, "a signal was not told to each function once")
      [] e.f \in {"nop", "capture", "capturef", "clean", "refresh", "raw", "title"} -> s

RECURSIVE Apis(_, _)
Apis(s, es) == IF es = <<>> THEN s ELSE Apis(Api(s, Head(es)), Tail(es))

(* what the end of the input does is recorded with the key before *)
AtEnd(s) == NextKey(s).k = EofKey

Call(s, e) ==
    LET s1 == CASE e.f = "readline" -> s
                [] e.f = "std" -> [s EXCEPT !.prompt = e.t]
                [] e.f = "default" -> Default(s, e.t)
                [] e.f = "password" -> EnterPassword([s EXCEPT !.hs[e.ci] = Unset], e.ci)
                [] e.f = "passcfg" -> EnterPassword(s, e.ci)
    IN IF s.fin THEN s1
       ELSE IF e.blind /\ e.lis # <<>> /\ e.lis[1].line = <<>> /\ e.lis[1].pos = 0 /\ e.lis[1].key = 0
            THEN [s1 EXCEPT !.lq = Tail(e.lis)]
       ELSE IF Cfg(s1).lis = "none" \/ (e.lis = <<>> /\ AtEnd(s1)) THEN s1
       ELSE IF Len(e.lis) = 1 /\ e.lis[1].line = <<>> /\ e.lis[1].pos = 0 /\ e.lis[1].key = 0
            THEN s1
       ELSE IF Len(e.lis) >= 1 /\ e.lis[1].line = <<>> /\ e.lis[1].pos = 0 /\ e.lis[1].key = 0 /\ AtEnd(s1)
            THEN [s1 EXCEPT !.lq = Tail(e.lis)]
       ELSE Fail(s1, "the listener was not told that a call began")

Key(s, e) ==
    LET d == NextKey(s)
        s1 == Queue(Apis([s EXCEPT !.inp = d.rest], e.pre), e)
        f == Filtered(s, d.k)  \* by the filter that makes the changes
        s2 == IF f.ok THEN Process(s1, f.k) ELSE s1
    IN IF s.res.k # "none" THEN Fail(s, "the line had been ended before")
       ELSE IF d.k # e.k THEN Fail(s, "another key was expected")
       ELSE IF "raw" \in DOMAIN e /\ ~e.raw /\ ~s.fin THEN Fail(s, "a key was read in another mode of the terminal")
       ELSE IF e.mode # <<>> /\ e.mode # <<~s.s.on /\ ~s.c.on, s.s.on, s.c.on>> THEN Fail(s, "it tells another mode")
       ELSE IF AtEnd(s2) THEN s2
       ELSE Painted(Asked0(s2), e)

(* at the end of the input the filter sees nothing *)
RECURSIVE AtEof(_, _)
AtEof(s, n) ==
    IF s.res.k # "none" \/ n = 0 \/ NextKey(s).k # EofKey THEN s ELSE AtEof(StepKey(s), n - 1)

(* what a loop should do with the Result of Line: ask again after an interrupted line,
   or stop                                                                       *)
CanContinue(e) == e.k = "int" /\ e.t # <<>>
CanBreak(e) == e.k # "line" /\ ~CanContinue(e)

Ret(s, e) ==
    LET s0 == IF s.fin /\ s.res.k = "none" THEN [s EXCEPT !.res = [k |-> "eof", t |-> <<>>]]
              ELSE Asked0(IF e.blind THEN RunLine(s) ELSE AtEof(s, 3))
        s1 == IF s0.bk.ci # 0 THEN LeavePassword(s0) ELSE s0
        s2 == [s1 EXCEPT !.res = NoRes]
    IN IF s0.err # "" THEN s0
       ELSE IF s0.res.k = "none" THEN Fail(s0, "the call ended but the line did not")
       ELSE IF s0.res.k # e.k THEN Fail(s0, "the call ended another way")
       ELSE IF (IF e.ispw /\ e.k = "int" THEN <<>> ELSE s0.res.t) # e.t
            THEN Fail(s0, "another line was returned")
       ELSE IF e.can # <<>> /\ e.can # <<CanContinue(e), CanBreak(e)>> THEN Fail(s0, "CanContinue or CanBreak of the Result")
       ELSE s2

File(s, e) == IF e.path \notin DOMAIN s.disk THEN Fail(s, "there is a file that nobody named")
              ELSE IF s.disk[e.path] = e.data THEN s ELSE Fail(s, "the file has another content")
Shared(s, e) == IF e.was = e.is THEN s ELSE Fail(s, "handed over data was changed")

(* the process was stopped as often as it should, with the terminal in its own mode *)
Stopped(s, e) ==
    IF Len(e.ok) # s.susp THEN Fail(s, "it was not stopped as often as asked for")
    ELSE IF \E i \in 1..Len(e.ok) : ~e.ok[i] THEN Fail(s, "the terminal was in another mode while it was stopped")
    ELSE IF ~e.left THEN Fail(s, "the terminal was left in another mode")
    ELSE s

Apply(s, e) ==
    CASE e.e = "new" -> s
      [] e.e = "call" -> Call(s, e)
      [] e.e = "key" -> Key(s, e)
      [] e.e = "ret" -> Ret(s, e)
      [] e.e = "api" -> Api(s, e)
      [] e.e = "file" -> File(s, e)
      [] e.e = "shared" -> Shared(s, e)
      [] e.e = "disk" -> [s EXCEPT !.disk[e.path] = e.t]
      [] e.e = "restart" -> InitState(Runs[r].cfgs, e.ci, e.inp, s.disk)
      [] e.e = "stops" -> Stopped(s, e)
      [] e.e = "crash" -> Fail(s, "it crashed")
      [] e.e = "hang" -> Fail(s, "it hangs")

Checked(s) ==
    IF s.err # "" THEN s
    ELSE IF ~CursorInLine(s) THEN Fail(s, "the cursor is outside of the line")
    ELSE IF ~HistoryInBounds(s) THEN Fail(s, "more history than allowed")
    ELSE IF ~ChoiceInList(s) THEN Fail(s, "no candidate is chosen")
    ELSE s

Brief(s) == [buf |-> s.buf, pos |-> s.pos, kill |-> s.kill, res |-> s.res,
             items |-> [i \in 1..Len(s.h.items) |-> s.h.items[i].src], cur |-> s.h.cur,
             s |-> s.s.on, c |-> s.c.on, sel |-> s.c.sel, ch |-> s.c.ch, ins |-> s.ins, ci |-> s.ci]

Init == /\ r \in 1..Len(Runs)
        /\ l = 0
        /\ st = InitState(Runs[r].cfgs, 1, Runs[r].inp, Runs[r].disk)
Next == /\ st.err = ""
        /\ l < Len(Runs[r].ev)
        /\ l' = l + 1
        /\ r' = r
        /\ st' = Checked(Apply(st, Runs[r].ev[l + 1]))
        /\ st'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> st'.err,
                                        spec |-> Brief(st')]))
Spec == Init /\ [][Next]_vars
=============================================================================
