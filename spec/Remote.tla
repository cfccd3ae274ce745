-------------------------------- MODULE Remote --------------------------------
(* A remote session, as seen at one end of its connection (C20).

   The bytes on the wire are messages: a length (4 bytes, of what follows), a type
   (2 bytes) and data.  Whatever the pieces are in which they arrive, every operator
   is one observable event; err says what is wrong with it.

     in      bytes received, not yet a message;  over: no more messages can come
     up      data received and not read (server) or not printed (client)
     tot, cons   how much data was received, was read
     stop    the data was followed by an end of it when there was so much; -1: not yet
     loose   there was a message without a meaning: the session may end, or not
     ws, ts  all widths and terminal flags reported: [v, at]; at is how much data came before,
             -1 of those the session began with
     closing Close has begun;  broken: the connection failed
     calls   of Write and for raw mode: [id, k, t, on]; on: its message was sent
     out     bytes sent, not yet a message                                       *)
EXTENDS Integers, Sequences, FiniteSets

DATA == 0
WIDTH == 1
WIDTHREPORT == 2
TTYREPORT == 3
RAW == 4
ERAW == 5
EOF == 6

NewRemote ==
    [in |-> <<>>, over |-> FALSE, up |-> <<>>, tot |-> 0, cons |-> 0, stop |-> -1, loose |-> FALSE,
     ws |-> <<[v |-> -1, at |-> 0]>>, ts |-> <<[v |-> 0, at |-> 0]>>, noted |-> 0, cb |-> 0, count |-> 0,
     closing |-> FALSE, broken |-> FALSE, calls |-> {}, out |-> <<>>,
     raw |-> FALSE, sent |-> 0, src |-> <<>>, srcend |-> 0, hung |-> FALSE, eofsent |-> FALSE, wanted |-> {}, term |-> 0,
     err |-> ""]
Bad(m, what) == IF m.err = "" THEN [m EXCEPT !.err = what] ELSE m
Must(ok, m, what) == IF ok THEN m ELSE Bad(m, what)

Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- messages ---- *)
Signed16(a, b) == IF a >= 128 THEN (a - 256) * 256 + b ELSE a * 256 + b
(* a length: -1 of those that cannot be *)
Length(b) == IF b[1] >= 128 \/ (b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] < 2) THEN -1
             ELSE ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
Complete(b) == Len(b) >= 4 /\ Length(b) >= 0 /\ Len(b) - 4 >= Length(b)
Malformed(b) == Len(b) >= 4 /\ Length(b) = -1
First(b) == [k |-> Signed16(b[5], b[6]), t |-> SubSeq(b, 7, 4 + Length(b))]
After1(b) == Drop(b, 4 + Length(b))
Num(t) == t[1] * 256 + t[2]
Message(k, t) == <<(Len(t) + 2) \div 16777216, ((Len(t) + 2) \div 65536) % 256, ((Len(t) + 2) \div 256) % 256, (Len(t) + 2) % 256, 0, k>> \o t

End(m) == [m EXCEPT !.over = TRUE, !.stop = IF @ < 0 THEN m.tot ELSE @]

(* ---- what arrives ---- *)
(* at the server *)
Got1(m, x) ==
    LET m1 == [m EXCEPT !.count = @ + 1]
        bad == [m1 EXCEPT !.loose = TRUE]
    IN CASE x.k = DATA -> [m1 EXCEPT !.up = @ \o x.t, !.tot = @ + Len(x.t)]
         [] x.k = EOF -> [m1 EXCEPT !.stop = IF @ < 0 THEN m.tot ELSE @]
         [] x.k = WIDTHREPORT -> IF Len(x.t) < 2 THEN bad ELSE [m1 EXCEPT !.ws = Append(@, [v |-> Num(x.t), at |-> IF m.count = 1 THEN -1 ELSE m.tot])]
         [] x.k = TTYREPORT -> IF Len(x.t) < 2 THEN bad
                               ELSE [m1 EXCEPT !.ts = Append(@, [v |-> IF Num(x.t) = 0 THEN 0 ELSE 1, at |-> IF m.count = 0 THEN -1 ELSE m.tot])]
         [] OTHER -> bad
(* at the client *)
Shown1(m, x) ==
    LET m1 == [m EXCEPT !.count = @ + 1]
    IN CASE x.k = DATA -> [m1 EXCEPT !.up = @ \o x.t, !.tot = @ + Len(x.t)]
         [] x.k = RAW -> [m1 EXCEPT !.raw = TRUE]
         [] x.k = ERAW -> [m1 EXCEPT !.raw = FALSE]
         [] OTHER -> [m1 EXCEPT !.loose = TRUE]

RECURSIVE Arrive(_, _)
Arrive(m, client) ==
    IF m.over THEN m
    ELSE IF Malformed(m.in) THEN End(m)
    ELSE IF Complete(m.in)
    THEN LET x == First(m.in)
             \* a session begins with two reports
             hello == client \/ m.count >= 2 \/ (m.count = 0 /\ x.k = TTYREPORT) \/ (m.count = 1 /\ x.k = WIDTHREPORT)
         IN IF hello THEN Arrive([IF client THEN Shown1(m, x) ELSE Got1(m, x) EXCEPT !.in = After1(m.in)], client)
            ELSE End(m)
    ELSE m
Got(m, t, client) == Arrive([m EXCEPT !.in = @ \o t], client)
(* the connection does not give anything more *)
Cut(m) == End(m)
(* memory for a message that has not come: a few of those would end the process *)
Huge(m) == Bad(m, "memory was taken for what was not sent")
Broke(m) == [m EXCEPT !.broken = TRUE]
Gone(m) == m.closing \/ m.broken \/ m.over \/ m.loose

(* ---- the server ---- *)
Greeted(m, ok) ==
    IF ok THEN Must(m.count >= 2, m, "a session began without the two reports")
    ELSE Must(m.over \/ m.loose, m, "a session did not begin although there were the two reports")

Read(m, t, err) ==
    IF err = "" THEN Must(Len(t) > 0 /\ Starts(t, m.up), [m EXCEPT !.up = Drop(@, Len(t)), !.cons = @ + Len(t)],
                          "Read returned something else than what was sent")
    ELSE Must(err = "EOF" /\ t = <<>> /\ (m.closing \/ m.loose \/ (m.stop >= 0 /\ m.cons >= m.stop)),
              IF m.closing \/ m.loose \/ m.stop < 0 THEN m ELSE [m EXCEPT !.cons = Max2(@, m.stop + 1)],
              "Read ended although there was more")

(* the reports that came before something that was read *)
Settled(m, s) == LET is == {i \in 1..Len(s) : s[i].at < m.cons \/ i = 1} IN CHOOSE i \in is : \A j \in is : j <= i
Since(m, s, i) == {s[j].v : j \in i..Len(s)}
GetWidth(m, v) == Must(v \in Since(m, m.ws, Settled(m, m.ws)), m, "the width is not what was reported")
GetTTY(m, v) == Must(v \in Since(m, m.ts, Settled(m, m.ts)), m, "the terminal is not what was reported")
(* somebody wants to know of changes: from then on he is told.  noted is the last
   report before, cb the last one when he was told                               *)
Registered(m) == [m EXCEPT !.noted = Len(m.ws), !.cb = Len(m.ws)]
Told(m, v) == LET is == {i \in 1..Len(m.ws) : m.ws[i].v = v}
             IN IF is = {} THEN Bad(m, "somebody was told of a width that was not reported")
                ELSE [m EXCEPT !.cb = CHOOSE i \in is : \A j \in is : j <= i]
CheckTold(m) == LET k == Settled(m, m.ws) IN Must(m.noted = 0 \/ k <= m.noted \/ m.cb >= k, m, "nobody was told of a new width")

CallBegins(m, id, k, t) == [m EXCEPT !.calls = @ \cup {[id |-> id, k |-> k, t |-> t, on |-> FALSE]}]
(* calls with the same message are the same: the one that returned was sent first,
   or failed if one of them did *)
CallEnds(m, id, n, err) ==
    LET c == CHOOSE c \in m.calls : c.id = id
        same == {d \in m.calls : d.k = c.k /\ d.t = c.t}
        d == IF \E x \in same : x.on = (err = "") THEN CHOOSE x \in same : x.on = (err = "") ELSE c
        m1 == [m EXCEPT !.calls = (@ \ {c, d}) \cup (IF c = d THEN {} ELSE {[c EXCEPT !.id = d.id]})]
    IN IF err = "" THEN Must(d.on /\ n = Len(c.t), m1, "a write returned before it was sent")
       ELSE Must(Gone(m), m1, "a write failed without a reason")

RECURSIVE Leave(_)
Leave(m) ==
    IF ~Complete(m.out) THEN Must(~Malformed(m.out), m, "a malformed message was sent")
    ELSE LET x == First(m.out)
             cs == {c \in m.calls : ~c.on /\ c.k = x.k /\ c.t = x.t}
             c == CHOOSE c \in cs : TRUE
         IN IF cs = {} THEN Bad(m, "something was sent that nobody wrote")
            ELSE Leave([m EXCEPT !.out = After1(m.out), !.calls = (@ \ {c}) \cup {[c EXCEPT !.on = TRUE]}])
Sent(m, t) == Leave([m EXCEPT !.out = @ \o t])
CloseBegins(m) == [m EXCEPT !.closing = TRUE]
ServerEnds(m) == Must(m.out = <<>> \/ m.broken \/ m.closing \/ m.over, m, "a message was not sent completely")

(* ---- the client ---- *)
(* wanted: the widths there were; term: it is a terminal; sent: messages *)
Terminal(m, v) == [m EXCEPT !.term = v]
Window(m, v) == [m EXCEPT !.wanted = @ \cup {v}]
SourceBegins(m) == Must(~m.broken, m, "the client reads on although the connection is broken")
Source(m, t, err) == [m EXCEPT !.src = @ \o t, !.srcend = IF err = "" THEN @ ELSE 1]
Typed1(m, x) ==
    LET m1 == [m EXCEPT !.sent = @ + 1]
    IN IF m.sent = 0 THEN Must(x = [k |-> TTYREPORT, t |-> <<0, m.term>>], m1, "the client did not begin with its terminal")
       ELSE IF m.sent = 1 THEN Must(x.k = WIDTHREPORT /\ Len(x.t) = 2 /\ Num(x.t) \in m.wanted, m1, "the client did not send its width")
       ELSE CASE x.k = WIDTHREPORT -> Must(Len(x.t) = 2 /\ Num(x.t) \in m.wanted, [m1 EXCEPT !.ws = Append(@, [v |-> Num(x.t), at |-> 0])],
                                           "the client sent a width that was none")
              [] x.k = DATA -> Must(~m.eofsent /\ Starts(x.t, m.src), [m1 EXCEPT !.src = Drop(@, Len(x.t))],
                                    "the client sent something else than what was typed")
              [] x.k = EOF -> Must(m.srcend = 1 /\ m.src = <<>>, [m1 EXCEPT !.eofsent = TRUE], "the client ended before the input")
              [] OTHER -> Bad(m1, "the client sent a message that is not for the server")
RECURSIVE Type(_)
Type(m) == IF ~Complete(m.out) THEN Must(~Malformed(m.out), m, "a malformed message was sent")
           ELSE Type([Typed1(m, First(m.out)) EXCEPT !.out = After1(m.out)])
Typed(m, t) == Type([m EXCEPT !.out = @ \o t])

Printed(m, t) == Must(Starts(t, m.up), [m EXCEPT !.up = Drop(@, Len(t)), !.cons = @ + Len(t)], "the client printed something else")
(* all that was sent is printed: its effects are there *)
Mode(m, raw) == Must(m.up # <<>> \/ raw = m.raw, m, "the terminal is not in the mode that was asked for")
LastWidth(m, v) == Must(m.ws[Len(m.ws)].v = v, m, "the last width was not reported")
ClientEnds(m, raw) ==
    LET m1 == Must(m.up = <<>>, m, "not everything was printed")
    IN Must(~raw, m1, "the terminal was left raw")
=============================================================================
