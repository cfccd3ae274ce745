------------------------------- MODULE TtyTrace -------------------------------
(* Recorded calls on a real terminal, one run per line: id, modes (all there were,
   the first one at first) and ev, with the mode after each (m, its number):
     set m            somebody else sets the mode
     raw | state ok   MakeRaw, GetState
     restore k ok     of what the k-th of these returned
     enter | exit ok  of RawMode
     pass t during    ReadPassword(fd); t is typed when the mode is `during' (or
          got err echo  nothing: it was typed before); what it returned and what the terminal showed
     none             all of them on something that is no terminal: tty what IsTerminal
                      said, oks which of the calls had no error
     is               IsTerminal(fd) said tty
     resize w h       somebody resizes it
     size w h ok      GetSize
     screen fds w     GetScreenWidth and DefaultIsTerminal (tty) with the terminal at
            tty       these of 0, 1, 2 and nothing at the others
     reg              DefaultOnWidthChanged with one more callback
     winch ids        those that were called for a SIGWINCH                       *)
EXTENDS Tty, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, x
vars == <<r, l, x>>

M(k) == LET j == Runs[r].modes[k] IN [i |-> ToSet(j.i), o |-> ToSet(j.o), c |-> ToSet(j.c), l |-> ToSet(j.l), cc |-> j.cc]

(* the mode is m, and there was no error *)
Now(y, e, what) == Must(e.ok, Must(M(e.m) = y.mode, y, what), "an error on a terminal")

Pass(y, e) ==
    LET all == y.typed \o e.t
        p == PasswordOf(all)
    IN Must(e.t = <<>> \/ M(e.during) = Quiet(y.mode),
       Must(\A k \in DOMAIN e.echo : e.echo[k] \in {10, 13},
       Must(HasLine(all) /\ e.got = p.got /\ e.err = p.err,
       Must(M(e.m) = y.mode, [y EXCEPT !.typed = p.left],
            "the mode after ReadPassword is not the one before"),
            "ReadPassword returned something else than what was typed"),
            "what was typed is shown"),
            "the mode during ReadPassword")

Step(y, e) ==
    CASE e.e = "set" -> SetMode(y, M(e.m))
      [] e.e = "raw" -> Now(DoRaw(y), e, "the mode after MakeRaw")
      [] e.e = "state" -> Now(DoState(y), e, "the mode after GetState")
      [] e.e = "restore" -> Now(DoRestore(y, e.k), e, "the mode after Restore")
      [] e.e = "enter" -> Now(DoEnter(y), e, "the mode after Enter")
      [] e.e = "exit" -> Now(DoExit(y), e, "the mode after Exit")
      [] e.e = "pass" -> Pass(y, e)
      [] e.e = "none" -> Must(~e.tty, Must(e.oks = <<>>, Must(M(e.m) = y.mode, y, "the mode of another terminal"),
                                    "no error without a terminal"), "IsTerminal without a terminal")
      [] e.e = "is" -> Must(e.tty, y, "IsTerminal on a terminal")
      [] e.e = "resize" -> [y EXCEPT !.size = <<e.w, e.h>>]
      [] e.e = "size" -> Must(e.ok /\ <<e.w, e.h>> = y.size, y, "GetSize")
      [] e.e = "screen" ->
            LET f == ToSet(e.fds) IN
            Must(e.w = (IF f \cap {1, 2} = {} THEN -1 ELSE y.size[1]),
            Must(e.tty = (0 \in f /\ f \cap {1, 2} # {}), y, "DefaultIsTerminal"), "GetScreenWidth")
      [] e.e = "reg" -> [y EXCEPT !.cb = @ + 1]
      [] e.e = "winch" -> Must(e.ids # <<>> /\ ToSet(e.ids) = {y.cb}, y, "the callback for a change of the width")

Init == r \in 1..Len(Runs) /\ l = 0 /\ x = NewTty(M(1))
Next == /\ x.err = "" /\ l < Len(Runs[r].ev) /\ l' = l + 1 /\ r' = r
        /\ x' = Step(x, Runs[r].ev[l + 1])
        /\ x'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> x'.err,
                                        spec |-> [mode |-> x'.mode, typed |-> x.typed, size |-> x.size]]))
Spec == Init /\ [][Next]_vars
=============================================================================
