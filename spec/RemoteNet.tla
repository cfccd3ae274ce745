------------------------------- MODULE RemoteNet -------------------------------
(* Whole remote sessions, several at a time, between ListenRemote and DialRemote (or
   a client that follows a script): recorded runs, one per line: id, and ev:
     typed s t    bytes typed at client s (before they are sent)
     ended s      nothing more is typed there
     line s t     a Readline of the server returned t
     over s       the last Readline returned io.EOF
     said s t     the server is about to write t: bytes from 128 on
     out s t      the client printed t
     gone s       and got the end of the session
     refused s ok what cannot be was tried, and reported an error or not: to listen where
                  another does, to dial where nobody listens, to go on although the
                  program said no
     none         a Readline returned a line that nobody had typed
   Other clients that do not keep the protocol are there at the same time.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, m
vars == <<r, l, m>>

New == [typed |-> <<>>, ended |-> FALSE, over |-> FALSE, said |-> <<>>, err |-> ""]
Bad(x, what) == IF x.err = "" THEN [x EXCEPT !.err = what] ELSE x
Must(ok, x, what) == IF ok THEN x ELSE Bad(x, what)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
High(t) == SelectSeq(t, LAMBDA b : b >= 128)

Step(x, e) ==
    CASE e.e = "typed" -> [x EXCEPT !.typed = @ \o e.t]
      [] e.e = "ended" -> [x EXCEPT !.ended = TRUE]
      [] e.e = "line" -> LET n == Len(e.t) IN
            Must(~x.over /\ Len(x.typed) > n /\ Starts(e.t, x.typed) /\ x.typed[n + 1] \in {10, 13},
                 [x EXCEPT !.typed = Drop(@, n + 1)], "Readline returned another line than the one that was typed")
      [] e.e = "over" -> Must(x.ended /\ x.typed = <<>>, [x EXCEPT !.over = TRUE], "the session ended before what was typed")
      [] e.e = "said" -> [x EXCEPT !.said = @ \o e.t]
      [] e.e = "out" -> LET t == High(e.t) IN
            Must(Starts(t, x.said), [x EXCEPT !.said = Drop(@, Len(t))], "the client printed something else than what was written")
      [] e.e = "gone" -> Must(x.over /\ x.said = <<>>, x, "the client was left before everything was there")
      [] e.e = "refused" -> Must(e.ok, x, "what cannot be reported no error")
      [] e.e = "none" -> Bad(x, "Readline returned what nobody had typed")

Init == /\ r \in 1..Len(Runs) /\ l = 0 /\ m = [s \in 1..Runs[r].n |-> New]
Next == /\ \A s \in 1..Runs[r].n : m[s].err = ""
        /\ l < Len(Runs[r].ev) /\ l' = l + 1 /\ r' = r
        /\ LET e == Runs[r].ev[l + 1] IN
           /\ m' = [m EXCEPT ![e.s] = Step(@, e)]
           /\ m'[e.s].err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> m'[e.s].err,
                                                spec |-> [typed |-> m[e.s].typed, said |-> m[e.s].said]]))
Spec == Init /\ [][Next]_vars
=============================================================================
