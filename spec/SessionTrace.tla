----------------------------- MODULE SessionTrace -----------------------------
(* Recorded sessions of the real editor, with all goroutines, against Session and
   Machine.  What the keys do to the line is for the machine to say, and with it
   where a line ends.  Runs, one per line:
     id cfgs disk  and ev, the events in the order they happened:
     call f t ci mid, ret k t ispw   as in Trace; mid: SetConfig follows, before
                     any input is used
     raw who on      the terminal was put into raw mode, or back
     rs, rd t, reof  a Read of the Stdin began, gave t, found the end
     cb, ce          a Close began, returned
     sc              the Stdin was closed
     api             another call of the program, as in Trace
     idle            nothing is going on
     file path data  the history file, at the end
   A Read that is ended by Close gives nothing.                                 *)
EXTENDS Machine, Session, SequencesExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, l,
          st,     \* the machine: st.inp is what was given and not used
          m,      \* the session
          eof,    \* the end of the input was given
          was,    \* the history files when the call began
          alt     \* other contents that they may have
vars == <<r, l, st, m, eof, was, alt>>

(* enough was given for the next key to be processed *)
Operands(k) == k \in {100, 114, 102, 70, 116, 84, 99}
CanStep(s) ==
    LET d == NextKey(s)
        f == Filtered(s, d.k)
        vi == VimOn(s) /\ ~s.ins /\ ~s.c.sel /\ f.ok /\ Operands(f.k)
    IN d.k # EofKey /\ (vi => NextKey([s EXCEPT !.inp = d.rest]).k # EofKey)

(* every step takes at least one character *)
Settle(s) == FoldLeft(LAMBDA a, x : IF a.res.k # "none" \/ a.fin \/ ~CanStep(a) THEN a ELSE StepKey(a), s, s.inp)
RECURSIVE SettleEof(_, _)
SettleEof(s, n) == IF s.res.k # "none" \/ s.fin \/ n = 0 THEN s ELSE SettleEof(StepKey(s), n - 1)
Settled(s, ended) == LET s1 == Settle(s) IN IF ended THEN SettleEof(s1, Len(s1.inp) + 3) ELSE s1

Seen(s, mm) == [mm EXCEPT !.ended = s.res.k # "none"]

Called(s, e) ==
    CASE e.f = "readline" -> s
      [] e.f = "default" -> Default(s, e.t)
      [] e.f = "password" -> EnterPassword([s EXCEPT !.hs[e.ci] = Unset], e.ci)

Apid(s, e) ==
    CASE e.f = "stdin" -> IF s.fin \/ eof THEN s ELSE [s EXCEPT !.inp = @ \o e.t]
      [] e.f = "prompt" -> [s EXCEPT !.prompt = e.t]
      [] e.f = "vim" -> [s EXCEPT !.cfgs[s.vci].vim = e.b, !.ins = TRUE]
      [] e.f = "setcfg" -> [SetConfigTo(s, e.ci) EXCEPT !.vci = e.ci]
      [] e.f = "save" -> RecordLine(s, e.t)

Text0(s, e) == IF e.ispw /\ e.k = "int" THEN <<>> ELSE s.res.t

(* after the event *)
Out(s, mm, ef) == [st |-> s, m |-> mm, eof |-> ef, was |-> was, alt |-> alt]
Using == m.call /\ ~m.cs /\ ~m.final

Apply(e) ==
    CASE e.e = "call" ->
           IF m.closed \/ m.final THEN Out(st, OnCall(m), eof)
           ELSE LET s == IF e.mid THEN Called(st, e) ELSE Settled(Called(st, e), eof)
                IN [Out(s, Seen(s, OnCall(m)), eof) EXCEPT !.was = st.disk]
      [] e.e = "ret" ->
           LET fits == st.res.k = e.k /\ Text0(st, e) = e.t
               m1 == OnRet(m, e.k, fits)
               s1 == IF st.bk.ci # 0 THEN LeavePassword(st) ELSE st
               taken == m.closing /\ e.k = "eof" /\ ~fits
           IN \* what ended while Close was called may have been recorded or not
              [Out([s1 EXCEPT !.res = NoRes], [m1 EXCEPT !.final = @ \/ s1.fin \/ taken], eof)
               EXCEPT !.alt = IF m.closing THEN alt \cup {was} ELSE alt]
      [] e.e = "raw" -> Out(st, OnRaw(m, e.who, e.on), eof)
      [] e.e = "rawbad" -> Out(st, Wrong(m, "the terminal is in another mode"), eof)
      [] e.e = "rs" -> Out(st, OnRead(m), eof)
      [] e.e = "rd" ->
           LET s0 == [st EXCEPT !.inp = @ \o e.t]
               s == IF Using THEN Settled(s0, eof) ELSE s0
           IN Out(s, Seen(s, OnGot(m)), eof)
      [] e.e = "reof" ->
           LET s == IF Using THEN Settled(st, TRUE) ELSE st
           IN Out(s, Seen(s, OnGot(m)), TRUE)
      [] e.e = "cb" -> Out(st, OnClose(m), eof)
      [] e.e = "ce" -> Out(st, OnClosed(m), eof)
      [] e.e = "sc" -> Out(st, OnStdinClosed(m), eof)
      [] e.e = "idle" -> Out(st, OnIdle(m), eof)
      [] e.e = "api" ->
           LET s0 == Apid(st, e)
               s == IF Using THEN Settled(s0, eof) ELSE s0
           IN Out(s, IF Using THEN Seen(s, m) ELSE m, eof)
      [] e.e = "file" ->
           Out(st, Unless(\E d \in alt \cup {st.disk} : d[e.path] = e.data, m,
                          "the history file has another content"), eof)

Brief == [buf |-> st'.buf, inp |-> st'.inp, res |-> st'.res, fin |-> st'.fin, eof |-> eof',
          m |-> [m' EXCEPT !.raw = Cardinality(@)]]

Init == /\ r \in 1..Len(Runs)
        /\ l = 0
        /\ st = InitState(Runs[r].cfgs, 1, <<>>, Runs[r].disk)
        /\ m = NewSession
        /\ eof = FALSE
        /\ was = Runs[r].disk
        /\ alt = {}
Next == /\ m.err = ""
        /\ l < Len(Runs[r].ev)
        /\ l' = l + 1
        /\ r' = r
        /\ LET o == Apply(Runs[r].ev[l + 1]) IN
           /\ st' = o.st
           /\ m' = IF o.st.err # "" THEN Wrong(o.m, o.st.err) ELSE o.m
           /\ eof' = o.eof
           /\ was' = o.was
           /\ alt' = o.alt
        /\ m'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> m'.err,
                                        spec |-> Brief]))
Spec == Init /\ [][Next]_vars
=============================================================================
