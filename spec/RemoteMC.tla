-------------------------------- MODULE RemoteMC --------------------------------
(* The goroutines of the server's end of a remote session: readLoop, which takes
   the messages apart, a user who reads, users who write, writeLoop, and those who
   close; the client sends any messages, may not read, and disappears at some time.
   Every interleaving is checked against the monitors of Remote, and that Reads and
   Writes return.                                                               *)
EXTENDS Remote, TLC

CONSTANTS MaxMsgs, MaxReads, Writers, MaxWrites, Closers,
          EofFirst,     \* faults: Read looks for data first and then for the end
          NoWake,       \* the end does not wake a Read
          NoStop,       \* a Read that waits does not look for Close
          NoStopW,      \* a Write that waits does not look for Close
          Panic         \* a malformed message ends readLoop and nothing else

VARIABLES up, n, gone, deaf,             \* the client: messages on their way; it has disappeared; it does not read
          lpc, cur, buf, eof, token,     \* readLoop and the buffer
          rpc, ateof, reads,             \* the reader
          wpc, writes,                   \* the writers
          opc, cw,                       \* writeLoop, whose call it has
          closed, stop, down, cpc, m     \* Close
vars == <<up, n, gone, deaf, lpc, cur, buf, eof, token, rpc, ateof, reads, wpc, writes, opc, cw, closed, stop, down, cpc, m>>
client == <<up, n, gone, deaf>>
loop == <<lpc, cur>>
data == <<buf, eof, token>>
reader == <<rpc, ateof, reads>>
writer == <<wpc, writes>>
wloop == <<opc, cw>>
close == <<closed, stop, down>>

Hello == Message(TTYREPORT, <<0, 1>>) \o Message(WIDTHREPORT, <<0, 80>>)
Init ==
    /\ up = <<>> /\ n = 0 /\ gone = FALSE /\ deaf \in BOOLEAN
    /\ lpc = "read" /\ cur = <<>> /\ buf = <<>> /\ eof = FALSE /\ token = FALSE
    /\ rpc = "idle" /\ ateof = FALSE /\ reads = 0
    /\ wpc = [w \in Writers |-> "idle"] /\ writes = [w \in Writers |-> 0]
    /\ opc = "select" /\ cw = 0
    /\ closed = FALSE /\ stop = FALSE /\ down = FALSE /\ cpc = [c \in Closers |-> "idle"]
    /\ m = Registered(Got(NewRemote, Hello, FALSE))

(* ---- the client ---- *)
Send == /\ ~gone /\ n < MaxMsgs /\ n' = n + 1
        /\ \E x \in {Message(DATA, <<n + 1>>), Message(EOF, <<>>), Message(WIDTHREPORT, <<0, n + 1>>), <<0, 0, 0, 1, 0, 0>>, Message(9, <<>>)} :
              up' = Append(up, x)
        /\ UNCHANGED <<gone, deaf, loop, data, reader, writer, wloop, close, cpc, m>>
Disappear == /\ ~gone /\ gone' = TRUE
             /\ UNCHANGED <<up, n, deaf, loop, data, reader, writer, wloop, close, cpc, m>>

(* ---- readLoop ---- *)
L0 == UNCHANGED <<n, gone, deaf, reader, writer, wloop, cpc>>
LRead == /\ lpc = "read"
         /\ IF down THEN lpc' = "close" /\ m' = Cut(m) /\ UNCHANGED <<cur, up>>
            ELSE IF up # <<>>
            THEN /\ up' = Tail(up) /\ cur' = Head(up) /\ m' = Got(m, Head(up), FALSE)
                 /\ lpc' = IF Malformed(Head(up)) THEN (IF Panic THEN "over" ELSE "close") ELSE "handle"
            ELSE gone /\ lpc' = "close" /\ m' = Cut(m) /\ UNCHANGED <<cur, up>>
         /\ UNCHANGED <<data, close>> /\ L0
LHandle == /\ lpc = "handle"
           /\ LET x == First(cur) IN
              /\ lpc' = CASE x.k = DATA -> "signal" [] x.k = EOF -> IF NoWake THEN "read" ELSE "signal"
                          [] x.k = WIDTHREPORT -> "tell" [] OTHER -> "read"
              /\ buf' = IF x.k = DATA THEN buf \o x.t ELSE buf
              /\ eof' = (eof \/ x.k = EOF)
           /\ UNCHANGED <<up, cur, token, close, m>> /\ L0
LSignal == /\ lpc = "signal" /\ token' = TRUE /\ lpc' = "read" /\ UNCHANGED <<up, cur, buf, eof, close, m>> /\ L0
LTell == /\ lpc = "tell" /\ m' = Told(m, Num(First(cur).t)) /\ lpc' = "read" /\ UNCHANGED <<up, cur, data, close>> /\ L0
LClose == /\ lpc = "close" /\ lpc' = "over"
          /\ closed' = TRUE /\ stop' = TRUE /\ down' = TRUE
          /\ UNCHANGED <<up, cur, data, m>> /\ L0
Loop == LRead \/ LHandle \/ LSignal \/ LTell \/ LClose

(* ---- Read ---- *)
R0 == UNCHANGED <<client, loop, writer, wloop, close, cpc>>
RBegin == /\ rpc = "idle" /\ reads < MaxReads /\ reads' = reads + 1 /\ rpc' = IF EofFirst THEN "take" ELSE "look"
          /\ UNCHANGED <<ateof, data, m>> /\ R0
RLook == /\ rpc = "look" /\ ateof' = eof /\ UNCHANGED <<reads, data>>
         /\ IF EofFirst
            THEN IF eof THEN rpc' = "idle" /\ m' = Read(m, <<>>, "EOF") ELSE rpc' = "wait" /\ UNCHANGED m
            ELSE rpc' = "take" /\ UNCHANGED m
         /\ R0
RTake == /\ rpc = "take" /\ UNCHANGED <<reads, ateof, eof, token>>
         /\ IF buf # <<>>
            THEN /\ buf' = Tail(buf) /\ rpc' = "idle"
                 /\ m' = LET x == Read(m, <<Head(buf)>>, "") IN CheckTold(x)
            ELSE /\ UNCHANGED buf
                 /\ IF EofFirst THEN rpc' = "look" /\ UNCHANGED m
                    ELSE IF ateof THEN rpc' = "idle" /\ m' = Read(m, <<>>, "EOF") ELSE rpc' = "wait" /\ UNCHANGED m
         /\ R0
RWake == /\ rpc = "wait" /\ token /\ token' = FALSE /\ rpc' = (IF EofFirst THEN "take" ELSE "look")
         /\ UNCHANGED <<ateof, reads, buf, eof, m>> /\ R0
RStop == /\ rpc = "wait" /\ stop /\ ~NoStop /\ eof' = TRUE /\ rpc' = (IF EofFirst THEN "take" ELSE "look")
         /\ UNCHANGED <<ateof, reads, buf, token, m>> /\ R0
R == RLook \/ RTake \/ RWake \/ RStop

(* ---- Write ---- *)
W0 == UNCHANGED <<client, loop, data, reader, cpc>>
Text(w) == <<100 * w + writes[w]>>
WBegin(w) == /\ wpc[w] = "idle" /\ writes[w] < MaxWrites
             /\ writes' = [writes EXCEPT ![w] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = "offer"]
             /\ m' = CallBegins(m, w, DATA, <<100 * w + writes[w] + 1>>)
             /\ UNCHANGED <<wloop, close>> /\ W0
WTaken(w) == /\ wpc[w] = "offer" /\ opc = "select" /\ opc' = "write" /\ cw' = w
             /\ wpc' = [wpc EXCEPT ![w] = "reply"] /\ UNCHANGED <<writes, close, m>> /\ W0
WStop(w) == /\ wpc[w] = "offer" /\ stop /\ ~NoStopW /\ wpc' = [wpc EXCEPT ![w] = "idle"]
            /\ m' = CallEnds(m, w, 0, "closed") /\ UNCHANGED <<writes, wloop, close>> /\ W0
(* a client that does not read holds up the write until the connection ends *)
OWrite == /\ opc = "write" /\ (down \/ gone \/ ~deaf)
          /\ IF down \/ gone THEN opc' = "failed" /\ m' = Broke(m)
             ELSE opc' = "written" /\ m' = Sent(m, Message(DATA, Text(cw)))
          /\ UNCHANGED <<cw, writer, close>> /\ W0
OReply == /\ opc \in {"failed", "written"} /\ opc' = "select" /\ wpc' = [wpc EXCEPT ![cw] = "idle"]
          /\ m' = IF opc = "failed" THEN CallEnds(m, cw, 0, "broken") ELSE CallEnds(m, cw, 1, "")
          /\ UNCHANGED <<cw, writes, close>> /\ W0
OStop == /\ opc = "select" /\ stop /\ opc' = "over" /\ UNCHANGED <<cw, writer, close, m>> /\ W0
O == OWrite \/ OReply \/ OStop

(* ---- Close ---- *)
C0 == UNCHANGED <<client, loop, data, reader, writer, wloop>>
CBegin(c) == /\ cpc[c] = "idle" /\ cpc' = [cpc EXCEPT ![c] = "swap"] /\ m' = CloseBegins(m) /\ UNCHANGED close /\ C0
CSwap(c) == /\ cpc[c] = "swap" /\ cpc' = [cpc EXCEPT ![c] = IF closed THEN "over" ELSE "stop"] /\ closed' = TRUE
            /\ UNCHANGED <<stop, down, m>> /\ C0
CStop(c) == /\ cpc[c] = "stop" /\ stop' = TRUE /\ cpc' = [cpc EXCEPT ![c] = "conn"] /\ UNCHANGED <<closed, down, m>> /\ C0
CConn(c) == /\ cpc[c] = "conn" /\ down' = TRUE /\ cpc' = [cpc EXCEPT ![c] = "over"] /\ UNCHANGED <<closed, stop, m>> /\ C0
C(c) == CSwap(c) \/ CStop(c) \/ CConn(c)

Next == \/ Send \/ Disappear \/ Loop \/ RBegin \/ R \/ O
        \/ \E w \in Writers : WBegin(w) \/ WTaken(w) \/ WStop(w)
        \/ \E c \in Closers : CBegin(c) \/ C(c)
Fair == /\ Init /\ [][Next]_vars
        /\ WF_vars(Loop) /\ SF_vars(R) /\ WF_vars(O)
        /\ \A w \in Writers : SF_vars(WTaken(w) \/ WStop(w))
        /\ \A c \in Closers : WF_vars(C(c))

Right == m.err = ""
(* what was received, and every end, reaches a Read *)
ReadReturns == (rpc # "idle" /\ (m.up # <<>> \/ m.stop >= 0 \/ m.closing)) ~> (rpc = "idle")
WriteReturns == \A w \in Writers : (wpc[w] # "idle" /\ (m.over \/ m.closing)) ~> (wpc[w] = "idle")
Leaves == stop ~> (opc = "over" /\ lpc = "over")
=============================================================================
