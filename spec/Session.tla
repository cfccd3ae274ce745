------------------------------- MODULE Session -------------------------------
(* What the program, the terminal and the user may see of a session, whatever
   the goroutines inside do: when input is read, when the terminal is raw, how
   calls end and what Close does (C14, C15, C16, C17).

   A session is a record; every operator is one observable event and says what is
   wrong with it, if anything:
     call     a Readline is in progress; cs: a Close had returned before it began
     raw      who has put the terminal into raw mode (the configurations)
     reading  a Read of the Stdin is pending
     closing  a Close was called; closed: one has returned; busy: not returned yet
     sc       the Stdin was closed
     ended    the keys given so far end the line of this call
     final    the input has ended, and with it all lines
     err                                                                       *)
LOCAL INSTANCE Naturals

NewSession == [call |-> FALSE, cs |-> FALSE, raw |-> {}, reading |-> FALSE, closing |-> FALSE,
               closed |-> FALSE, busy |-> 0, sc |-> FALSE, ended |-> FALSE, final |-> FALSE, err |-> ""]

Wrong(m, what) == IF m.err = "" THEN [m EXCEPT !.err = what] ELSE m
Unless(ok, m, what) == IF ok THEN m ELSE Wrong(m, what)

(* a call begins, it ends *)
OnCall(m) == [m EXCEPT !.call = TRUE, !.cs = m.closed, !.ended = FALSE]

(* how: "line", "int", "eof"; fits: that is what the keys given make of the line *)
OnRet(m, how, fits) ==
    LET m1 == Unless(m.raw = {}, m, "the call has ended and the terminal is still raw")
        m2 == IF m.cs \/ m.final
              THEN Unless(how = "eof", m1, "a call after Close or the end of the input did not return EOF")
              ELSE IF m.closing /\ how = "eof" THEN m1
              ELSE Unless(m.ended, m1, "the call ended but the line did not")
        m3 == IF m.cs \/ m.final \/ (m.closing /\ how = "eof") THEN m2
              ELSE Unless(fits, m2, "the call returned something else")
    IN [m3 EXCEPT !.call = FALSE]

(* raw mode *)
OnRaw(m, who, on) ==
    IF on THEN Unless(m.call, [m EXCEPT !.raw = @ \cup {who}], "the terminal became raw while no call is in progress")
    ELSE [m EXCEPT !.raw = @ \ {who}]

(* a Read begins, and returns *)
OnRead(m) ==
    LET m1 == [m EXCEPT !.reading = TRUE]
    IN IF m.closing THEN Unless(~m.closed \/ m.busy > 0, m1, "input is read after Close")
       ELSE LET m2 == Unless(m.call, m1, "input is read while no call is in progress")
                m3 == Unless(~m.ended /\ ~m.final, m2, "input is read after the line has ended")
            IN Unless(m.raw # {}, m3, "input is read while the terminal is not raw")
OnGot(m) == [m EXCEPT !.reading = FALSE]

(* Close *)
OnClose(m) == [m EXCEPT !.closing = TRUE, !.busy = @ + 1]
OnStdinClosed(m) == Unless(m.closing, [m EXCEPT !.sc = TRUE], "the Stdin was closed but not the instance")
(* of several at the same time the last to return has done everything *)
OnClosed(m) ==
    LET m1 == [m EXCEPT !.closed = TRUE, !.busy = @ - 1]
        m2 == Unless(m.busy > 1 \/ m.sc, m1, "Close returned but has not closed the Stdin")
    IN Unless(m.busy > 1 \/ m.call \/ m.raw = {}, m2, "Close returned and the terminal is still raw")

(* at any time while nothing is going on *)
OnIdle(m) == Unless(m.call \/ m.raw = {}, m, "no call is in progress and the terminal is raw")
=============================================================================
