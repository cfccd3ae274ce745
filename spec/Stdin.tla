--------------------------------- MODULE Stdin ---------------------------------
(* The two wrappers the editor puts around its input, as their users see them.

   CancelableStdin (C22): results of the reader below are passed on one by one, and
   Close ends every Read, whatever the reader below does.
     reads   the Reads that have begun and not returned, with their sizes
     given   what the reader below returned and no Read has got: [t, err]
     under   a Read of the reader below is pending
     closing, closed   a Close has begun, has returned
     shut    the Reads that began after Close had returned
     multi   Reads overlap: which of them gets what is open

   FillableStdin (C21): what is written comes before what the reader below has.
     fill    written and not read; sure: so many of it by writes that have returned
     seen    there was something to read already when the Read began

   Every operator is one observable event; err says what is wrong with it.      *)
EXTENDS Integers, Sequences, FiniteSets

NewStdin == [reads |-> {}, given |-> <<>>, under |-> 0, closing |-> FALSE, closed |-> FALSE,
             shut |-> {}, multi |-> FALSE, fill |-> <<>>, sure |-> 0, seen |-> FALSE, err |-> ""]
Bad(m, what) == IF m.err = "" THEN [m EXCEPT !.err = what] ELSE m
Must(ok, m, what) == IF ok THEN m ELSE Bad(m, what)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* both *)
ReadBegins(m, id) ==
    [m EXCEPT !.reads = @ \cup {id}, !.multi = @ \/ m.reads # {},
              !.shut = IF m.closed THEN @ \cup {id} ELSE @,
              !.seen = m.sure > 0]
UnderBegins(m) ==
    LET m1 == [m EXCEPT !.under = @ + 1]
    IN Must(m.closing \/ m.under < Cardinality(m.reads), m1, "the reader below is read although nobody reads")
UnderEnds(m, t, err) == [m EXCEPT !.under = @ - 1, !.given = Append(@, [t |-> t, err |-> err])]
CloseBegins(m) == [m EXCEPT !.closing = TRUE]
CloseEnds(m) == [m EXCEPT !.closed = TRUE]
Spoiled(m) == Bad(m, "the buffer was written to after Read had returned")
Returned(m, id) == LET rs == m.reads \ {id} IN [m EXCEPT !.reads = rs, !.multi = @ /\ rs # {}]

(* CancelableStdin *)
CancelRead(m, id, t, err) ==
    LET m1 == Returned(m, id)
        fits == {i \in 1..(IF m.multi THEN Len(m.given) ELSE IF m.given = <<>> THEN 0 ELSE 1) :
                    m.given[i] = [t |-> t, err |-> err]}
        cut == t = <<>> /\ err = "EOF"
    IN IF id \in m.shut THEN Must(cut, m1, "a Read after Close did not return EOF")
       ELSE IF fits # {} THEN [m1 EXCEPT !.given = Without(@, CHOOSE i \in fits : TRUE)]
       ELSE IF m.closing /\ cut THEN m1
       ELSE Bad(m1, "Read returned something else")

(* FillableStdin: only one Read at a time *)
Filled(m, t) == [m EXCEPT !.fill = @ \o t]
FillWritten(m, t, n, err) ==
    LET m1 == [m EXCEPT !.sure = @ + Len(t)]
    IN Must(m.closing \/ (n = Len(t) /\ err = ""), IF err = "" THEN m1 ELSE m, "a write was not taken completely")
Taken(m, n) == [m EXCEPT !.fill = Drop(@, n), !.sure = @ - n]
FillRead(m, id, size, t, err) ==
    LET m1 == Returned(m, id)
        pre == Len(t) > 0 /\ err = "" /\ Len(t) <= size /\ Starts(t, m.fill)
        low == m.given # <<>> /\ Head(m.given) = [t |-> t, err |-> err]
    IN IF size = 0 THEN [m1 EXCEPT !.given = <<>>]
       ELSE IF m.seen THEN Must(pre, Taken(m1, Len(t)), "Read did not return what was written before")
       ELSE IF low THEN [m1 EXCEPT !.given = Tail(@)]
       ELSE IF pre THEN Taken(m1, Len(t))
       ELSE Bad(m1, "Read returned something else")
=============================================================================
