------------------------------- MODULE SessionMC -------------------------------
(* How the goroutines of the editor work together, with the keys reduced to what
   matters: "x" a character, "N" Enter, "D" Ctrl-D, "C" Ctrl-C, "R" an Enter that
   the filter rejects.
     T   reads the input and hands out keys; after one that may end a line it waits
         to be kicked
     E   processes the keys and hands out lines, one per call
     U   the program: some calls of Readline or ReadPassword, each raw mode, kick,
         wait, raw mode off; for a password with another config in between
     C1 C2   two calls of Close
     V   the user, who types any keys, some of them at once, and may end the input
   Every interleaving is checked against the monitors of Session, and that calls
   and Close always come to their end.                                         *)
EXTENDS Naturals, Sequences, Session, TLC

CONSTANTS MaxKeys, MaxCalls, Closers, Ends,
          NoKick,      \* faults, to see that they are found: E does not kick after
                       \* a key that did not end the line
          NoStop,      \* T does not give up a key when it is stopped
          Eager,       \* T does not wait after a key that may end the line
          NoWait       \* a call that is ended by Close does not wait for E

Keys == {"x", "N", "D", "C", "R"}
Pausing(k) == k \in {"N", "D", "C", "R"}

VARIABLES tpc, tbuf, tkey,      \* T: where, read but not handed out, the key
          kick, stop,           \* its channels
          epc, ebuf, ekey, eres, elast,
          upc, calls, ures,
          cfg, ukind, ekind, leak, \* the config now; what is read: "line", "pw"; a password was recorded
          done,                 \* there will be no more lines
          cpc, tclosed, sclosed,
          typed, eof,           \* V: number of keys so far; the input has ended
          m, a                  \* what is seen: the session, the abstract line
vars == <<tpc, tbuf, tkey, kick, stop, epc, ebuf, ekey, eres, elast, upc, calls, ures, done, cpc,
          tclosed, sclosed, typed, eof, m, a, cfg, ukind, ekind, leak>>

-----------------------------------------------------------------------------
(* the line as it must be: inp given and not used, n characters in the line *)
Fresh == [inp |-> <<>>, n |-> 0, res |-> "none", out |-> 0, eof |-> FALSE]
RECURSIVE Settle(_)
Settle(s) ==
    IF s.res # "none" THEN s
    ELSE IF s.inp = <<>> THEN
         IF ~s.eof THEN s
         ELSE IF s.n = 0 THEN [s EXCEPT !.res = "eof", !.out = 0] ELSE [s EXCEPT !.res = "line", !.out = s.n, !.n = 0]
    ELSE LET k == Head(s.inp) t == [s EXCEPT !.inp = Tail(@)] IN
         Settle(CASE k = "x" -> [t EXCEPT !.n = @ + 1]
                  [] k = "R" -> t
                  [] k = "N" -> [t EXCEPT !.res = "line", !.out = t.n, !.n = 0]
                  [] k = "C" -> [t EXCEPT !.res = "int", !.out = t.n, !.n = 0]
                  [] k = "D" -> IF t.n = 0 THEN [t EXCEPT !.res = "eof", !.out = 0] ELSE [t EXCEPT !.n = @ - 1])
Final(s) == s.eof /\ s.inp = <<>> /\ s.n = 0
Seen(mm, s) == [mm EXCEPT !.ended = s.res # "none"]

Init ==
    /\ tpc = "wait" /\ tbuf = <<>> /\ tkey = "" /\ kick = FALSE /\ stop = FALSE
    /\ epc = "idle" /\ ebuf = 0 /\ ekey = "" /\ eres = <<>> /\ elast = FALSE
    /\ upc = "idle" /\ calls = 0 /\ ures = <<>>
    /\ done = FALSE /\ cfg = "main" /\ ukind = "line" /\ ekind = "line" /\ leak = FALSE
    /\ cpc = [c \in 1..Closers |-> "idle"] /\ tclosed = FALSE /\ sclosed = FALSE
    /\ typed = 0 /\ eof = FALSE
    /\ m = NewSession /\ a = Fresh

T0 == UNCHANGED <<epc, ebuf, ekey, eres, elast, upc, calls, ures, done, cpc, tclosed, sclosed, typed, eof, a, cfg, ukind, ekind, leak>>

(* T *)
TKicked == /\ tpc = "wait" /\ kick
           /\ kick' = FALSE /\ tpc' = "fill"
           /\ UNCHANGED <<tbuf, tkey, stop, m>> /\ T0
TStopped == /\ tpc \in (IF NoStop THEN {"wait"} ELSE {"wait", "send"}) /\ stop
            /\ tpc' = "done"
            /\ UNCHANGED <<tbuf, tkey, kick, stop, m>> /\ T0
TNext == /\ tpc = "fill" /\ tbuf # <<>>
         /\ tkey' = Head(tbuf) /\ tbuf' = Tail(tbuf) /\ tpc' = "send"
         /\ UNCHANGED <<kick, stop, m>> /\ T0
TRead == /\ tpc = "fill" /\ tbuf = <<>>
         /\ tpc' = "reading" /\ m' = OnRead(m)
         /\ UNCHANGED <<tbuf, tkey, kick, stop>> /\ T0
(* T hands a key to E *)
Hand == /\ tpc = "send" /\ epc = "recv"
        /\ ekey' = tkey /\ epc' = "proc"
        /\ tpc' = IF Pausing(tkey) /\ ~Eager THEN "wait" ELSE "fill"
        /\ UNCHANGED <<tbuf, tkey, kick, stop, ebuf, eres, elast, upc, calls, ures, done, cpc, tclosed, sclosed, typed, eof, m, a, cfg, ukind, ekind, leak>>

(* V types one or two keys into a pending Read, or ends the input; or the Stdin is closed *)
Type(ks) ==
    /\ tpc = "reading" /\ ~eof /\ ~sclosed /\ typed + Len(ks) <= MaxKeys
    /\ typed' = typed + Len(ks)
    /\ tbuf' = ks /\ tpc' = "fill"
    /\ LET s == [a EXCEPT !.inp = @ \o ks]
           t == IF m.call /\ ~m.cs /\ ~m.final THEN Settle(s) ELSE s
       IN a' = t /\ m' = Seen(OnGot(m), t)
    /\ UNCHANGED <<tkey, kick, stop, epc, ebuf, ekey, eres, elast, upc, calls, ures, done, cpc, tclosed, sclosed, eof, cfg, ukind, ekind, leak>>
EndInput ==
    /\ tpc = "reading" /\ Ends /\ ~eof /\ ~sclosed
    /\ eof' = TRUE /\ tpc' = "done"
    /\ LET s == [a EXCEPT !.eof = TRUE]
           t == IF m.call /\ ~m.cs /\ ~m.final THEN Settle(s) ELSE s
       IN a' = t /\ m' = Seen(OnGot(m), t)
    /\ UNCHANGED <<tbuf, tkey, kick, stop, epc, ebuf, ekey, eres, elast, upc, calls, ures, done, cpc, tclosed, sclosed, typed, cfg, ukind, ekind, leak>>
Unblock ==
    /\ tpc = "reading" /\ sclosed /\ tpc' = "done"
    /\ m' = OnGot(m)
    /\ UNCHANGED <<tbuf, tkey, kick, stop>> /\ T0
V == EndInput \/ \E k \in Keys : Type(<<k>>) \/ \E j \in Keys : Type(<<k, j>>)

(* E *)
E00 == UNCHANGED <<tpc, tbuf, tkey, stop, upc, calls, ures, cpc, tclosed, sclosed, typed, eof, m, a, cfg, ukind, ekind>>
E0 == E00 /\ UNCHANGED leak
EEnd == /\ epc = "recv" /\ (tpc = "done" \/ done)
        /\ epc' = "proc" /\ ekey' = "eof"
        /\ UNCHANGED <<ebuf, eres, elast, kick, done>> /\ E0
EOver == /\ epc = "idle" /\ done /\ epc' = "over"
         /\ UNCHANGED <<ebuf, ekey, eres, elast, kick, done>> /\ E0
Submit(res, last) == /\ eres' = res /\ elast' = last /\ ebuf' = 0 /\ epc' = (IF res[1] = "line" THEN "rec" ELSE "hand") /\ UNCHANGED <<kick, done, ekey>>
Go(n, kk) == /\ ebuf' = n /\ epc' = "recv" /\ kick' = (kick \/ kk) /\ UNCHANGED <<eres, elast, done, ekey>>
EProc ==
    /\ epc = "proc"
    /\ CASE done -> epc' = "over" /\ UNCHANGED <<ebuf, ekey, eres, elast, kick, done>>
         [] ~done /\ ekey = "eof" /\ ebuf = 0 ->
              done' = TRUE /\ epc' = "over" /\ UNCHANGED <<ebuf, ekey, eres, elast, kick>>
         [] ~done /\ ekey = "eof" /\ ebuf > 0 -> Submit(<<"line", ebuf>>, TRUE)
         [] ~done /\ ekey = "x" -> Go(ebuf + 1, FALSE)
         [] ~done /\ ekey = "R" -> Go(ebuf, ~NoKick)
         [] ~done /\ ekey = "N" -> Submit(<<"line", ebuf>>, FALSE)
         [] ~done /\ ekey = "C" -> Submit(<<"int", ebuf>>, FALSE)
         [] ~done /\ ekey = "D" -> IF ebuf = 0 THEN Submit(<<"eof", 0>>, FALSE) ELSE Go(ebuf - 1, ~NoKick)
    /\ E0
ERec == /\ epc = "rec" /\ epc' = "hand"
        /\ leak' = (leak \/ (ekind = "pw" /\ cfg = "main"))
        /\ UNCHANGED <<ebuf, ekey, eres, elast, kick, done>> /\ E00
EGiveUp == /\ epc = "hand" /\ done /\ epc' = "over"
           /\ UNCHANGED <<ebuf, ekey, eres, elast, kick, done>> /\ E0

(* U *)
U00 == UNCHANGED <<tpc, tbuf, tkey, stop, ebuf, ekey, eres, elast, cpc, tclosed, sclosed, typed, eof, leak>>
U0 == U00 /\ UNCHANGED <<cfg, ukind, ekind>>
UCall == /\ upc = "idle" /\ calls < MaxCalls
         /\ calls' = calls + 1 /\ upc' = "check"
         /\ LET t == IF m.closed \/ m.final THEN a ELSE Settle(a) IN a' = t /\ m' = Seen(OnCall(m), t)
         /\ ukind' \in {"line", "pw"} /\ cfg' = (IF ukind' = "pw" THEN "pw" ELSE "main")
         /\ UNCHANGED <<epc, kick, ures, done, ekind>> /\ U00
UCheck == /\ upc = "check"
          /\ IF done THEN upc' = "back" /\ ures' = <<"eof", 0>> ELSE upc' = "raw" /\ ures' = ures
          /\ UNCHANGED <<epc, kick, calls, done, m, a>> /\ U0
URaw == /\ upc = "raw" /\ upc' = "kick" /\ m' = OnRaw(m, 1, TRUE)
        /\ UNCHANGED <<epc, kick, calls, ures, done, a>> /\ U0
UKick == /\ upc = "kick" /\ upc' = "begin" /\ kick' = TRUE
         /\ UNCHANGED <<epc, calls, ures, done, m, a>> /\ U0
UBegin == /\ upc = "begin" /\ epc = "idle" /\ upc' = "result" /\ epc' = "recv"
          /\ ekind' = ukind
          /\ UNCHANGED <<kick, calls, ures, done, m, a, cfg, ukind>> /\ U00
UResult == /\ upc = "result" /\ epc = "hand"
           /\ upc' = "unraw" /\ ures' = eres
           /\ epc' = IF elast THEN "over" ELSE "idle"
           /\ done' = (done \/ elast)
           /\ UNCHANGED <<kick, calls, m, a>> /\ U0
UDone == /\ upc \in {"begin", "result"} /\ done
         /\ upc = "result" => (epc = "over" \/ NoWait)
         /\ upc' = "unraw" /\ ures' = <<"eof", 0>>
         /\ UNCHANGED <<epc, kick, calls, done, m, a>> /\ U0
UUnraw == /\ upc = "unraw" /\ upc' = "back" /\ m' = OnRaw(m, 1, FALSE)
          /\ UNCHANGED <<epc, kick, calls, ures, done, a>> /\ U0
UBack == /\ upc = "back" /\ upc' = "ret" /\ cfg' = "main"
         /\ UNCHANGED <<epc, kick, calls, ures, done, m, a, ukind, ekind>> /\ U00
URet == /\ upc = "ret" /\ upc' = "idle"
        /\ LET fits == a.res = ures[1] /\ a.out = ures[2]
               m1 == OnRet(m, ures[1], fits)
           IN m' = [m1 EXCEPT !.final = @ \/ Final(a) \/ (m.closing /\ ures[1] = "eof" /\ ~fits)]
        /\ a' = [a EXCEPT !.res = "none"]
        /\ UNCHANGED <<epc, kick, calls, ures, done>> /\ U0

(* Close *)
C0 == UNCHANGED <<tpc, tbuf, tkey, kick, epc, ebuf, ekey, eres, elast, upc, calls, ures, typed, eof, a, cfg, ukind, ekind, leak>>
Step(c, from, to) == cpc[c] = from /\ cpc' = [cpc EXCEPT ![c] = to]
CBegin(c) == Step(c, "idle", "finish") /\ m' = OnClose(m) /\ UNCHANGED <<done, tclosed, sclosed, stop>> /\ C0
CFinish(c) == Step(c, "finish", "stdin") /\ done' = TRUE /\ UNCHANGED <<tclosed, sclosed, stop, m>> /\ C0
CStdin(c) == /\ Step(c, "stdin", "swap") /\ sclosed' = TRUE /\ m' = OnStdinClosed(m)
             /\ UNCHANGED <<done, tclosed, stop>> /\ C0
CSwap(c) == /\ Step(c, "swap", IF tclosed THEN "end" ELSE "stop") /\ tclosed' = TRUE
            /\ UNCHANGED <<done, sclosed, stop, m>> /\ C0
CStop(c) == Step(c, "stop", "wait") /\ stop' = TRUE /\ UNCHANGED <<done, tclosed, sclosed, m>> /\ C0
CWait(c) == Step(c, "wait", "raw") /\ tpc = "done" /\ UNCHANGED <<done, tclosed, sclosed, stop, m>> /\ C0
CRaw(c) == Step(c, "raw", "end") /\ m' = OnRaw(m, 1, FALSE) /\ UNCHANGED <<done, tclosed, sclosed, stop>> /\ C0
CEnd(c) == Step(c, "end", "over") /\ m' = OnClosed(m) /\ UNCHANGED <<done, tclosed, sclosed, stop>> /\ C0
C(c) == CFinish(c) \/ CStdin(c) \/ CSwap(c) \/ CStop(c) \/ CWait(c) \/ CRaw(c) \/ CEnd(c)

T == TKicked \/ TStopped \/ TNext \/ TRead \/ Hand \/ Unblock
E == ERec \/ EEnd \/ EOver \/ EProc \/ EGiveUp
U == UCheck \/ URaw \/ UKick \/ UBegin \/ UResult \/ UDone \/ UUnraw \/ UBack \/ URet

Next == T \/ E \/ U \/ UCall \/ V \/ \E c \in 1..Closers : CBegin(c) \/ C(c)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(T) /\ WF_vars(E) /\ WF_vars(U) /\ \A c \in 1..Closers : WF_vars(C(c))

(* C14, C15, C16, C17: what is seen is right *)
Right == m.err = ""
(* at the end everything that was typed in time was used *)
Idle == upc = "idle" => m.raw = {} \/ m.err # ""

(* C13: a password is not recorded *)
Secret == ~leak

(* C16, C17: a call is never stuck: it returns, or reads *)
Answers == (upc # "idle") ~> (upc = "idle" \/ (tpc = "reading" /\ ~eof))
(* C15 *)
Released == (\E c \in 1..Closers : cpc[c] # "idle") ~> (upc = "idle")
CloseReturns == \A c \in 1..Closers : (cpc[c] = "finish") ~> (cpc[c] = "over")
=============================================================================
