---------------------------------- MODULE Tty ----------------------------------
(* The terminal and the functions that set its mode: MakeRaw, GetState, Restore,
   RawMode, ReadPassword(fd), and those that ask about it.
   A mode has the flags that are on, by their bit, in i (input), o (output), c
   (control) and l (local), and the characters cc.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IGNBRK == 0  BRKINT == 1  PARMRK == 3  ISTRIP == 5  INLCR == 6  IGNCR == 7  ICRNL == 8  IXON == 10
ISIG == 0  ICANON == 1  ECHO == 3  ECHONL == 6  IEXTEN == 15
CSIZE == {4, 5}  CS8 == {4, 5}  PARENB == 8
VEOF == 5  VTIME == 6  VMIN == 7      \* from 1 on

Raw(m) == [m EXCEPT !.i = @ \ {IGNBRK, BRKINT, PARMRK, ISTRIP, INLCR, IGNCR, ICRNL, IXON},
                    !.l = @ \ {ECHO, ECHONL, ICANON, ISIG, IEXTEN},
                    !.c = (@ \ (CSIZE \cup {PARENB})) \cup CS8,
                    !.cc = [@ EXCEPT ![VMIN] = 1, ![VTIME] = 0]]

(* while a password is typed *)
Quiet(m) == [m EXCEPT !.i = @ \cup {ICRNL}, !.l = (@ \ {ECHO}) \cup {ICANON, ISIG}]

(* what is typed on a terminal with lines: a line ends at the end of line (or, with
   ICRNL, at a return) or at ^D, which is not part of it                         *)
Ends(b) == b \in {10, 13, 4}
RECURSIVE Line(_)
Line(t) == IF t = <<>> \/ Ends(t[1]) THEN <<>> ELSE <<t[1]>> \o Line(Tail(t))
HasLine(t) == \E k \in 1..Len(t) : Ends(t[k])
(* ^D after something: that is there without an end of line; else the end *)
PasswordOf(t) == LET x == Line(t) IN
    [got |-> x, err |-> IF x = <<>> /\ t[1] = 4 THEN "EOF" ELSE "", left |-> SubSeq(t, Len(x) + 2, Len(t))]

(* The state: mode; the modes that were got from MakeRaw and GetState, in order;
   what RawMode has to go back to (at most one); what is typed but not read; the
   size; the callbacks for its changes so far.                                  *)
NewTty(m) == [mode |-> m, saved |-> <<>>, raw |-> <<>>, typed |-> <<>>, size |-> <<0, 0>>, cb |-> 0, err |-> ""]
Bad(x, what) == IF x.err = "" THEN [x EXCEPT !.err = what] ELSE x
Must(ok, x, what) == IF ok THEN x ELSE Bad(x, what)

SetMode(x, m) == [x EXCEPT !.mode = m]
DoRaw(x) == [x EXCEPT !.saved = Append(@, x.mode), !.mode = Raw(@)]
DoState(x) == [x EXCEPT !.saved = Append(@, x.mode)]
DoRestore(x, k) == [x EXCEPT !.mode = x.saved[k]]
DoEnter(x) == [x EXCEPT !.raw = <<x.mode>>, !.mode = Raw(@)]
DoExit(x) == IF x.raw = <<>> THEN x ELSE [x EXCEPT !.mode = x.raw[1], !.raw = <<>>]
=============================================================================
