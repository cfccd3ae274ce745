----------------------------- MODULE ScreenTrace -----------------------------
(* Recorded runs with everything that was written to the terminal (out, per
   event): the screen shows what it should at every event.

   front is the screen as it is without the line being edited, the cursor where
   the prompt starts; term the one the output leads to.                          *)
EXTENDS Trace, Screen

VARIABLE sc
svars == <<r, l, st, sc>>

Config0 == Runs[r].cfgs[1]

(* what stands for the line *)
Expand(t) == FlattenSeq([i \in 1..Len(t) |-> IF t[i] = 9 THEN Rep(32, TabWidth) ELSE <<t[i]>>])
Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
Drawn(s, t) ==
    IF Cfg(s).mask THEN [i \in 1..Len(t) |-> IF i = Len(t) /\ t[i] = 10 THEN 10 ELSE Cfg(s).mrune]
    ELSE IF Cfg(s).paint = "upper" THEN Upper(t) ELSE t
Visible(s) == NoColor(s.prompt)

(* prompt and line on the screen *)
WithLine(s, front, w, t, pos) ==
    LET d == Drawn(s, t)
        a == Written(front, w, Visible(s) \o Expand(Take(d, pos)))
        b == Written(a, w, Expand(Drop(d, pos)))
        at == Settled(a)
    IN [rows |-> b.rows, r |-> at.r, c |-> at.c, pend |-> FALSE, bad |-> FALSE, last |-> Settled(b).r, end |-> b]

Hint(p, def) == IF p = <<>> THEN def ELSE IF p = <<10>> THEN <<>> ELSE p

(* the screen after a line has been ended *)
Ended(s, res, front, w) ==
    LET t == CASE res.k = "line" -> res.t \o <<10>>
               [] res.k = "int" -> res.t \o Hint(Cfg(s).intp, <<94, 67>>) \o <<10>>
               [] OTHER -> Hint(Cfg(s).eofp, <<94, 68>>) \o <<10>>
    IN IF Cfg(s).unique \/ (res.k = "eof" /\ s.fin) THEN front
       ELSE WithLine(s, front, w, t, Len(t)).end

RECURSIVE Texts(_)          \* what the program wrote
Texts(es) == IF es = <<>> THEN <<>>
             ELSE (IF Head(es).f \in {"write", "race", "raw"} THEN Head(es).t ELSE <<>>) \o Texts(Tail(es))

RECURSIVE Title(_, _)      \* the title it gave the window last
Title(t, es) == IF es = <<>> THEN t ELSE Title(IF Head(es).f = "title" THEN Head(es).t ELSE t, Tail(es))

Out(e) == IF e.e \in {"call", "key", "ret", "api"} THEN e.out ELSE <<>>
Pre(e) == IF e.e = "key" THEN e.pre ELSE <<>>

(* what is typed while the line is masked is never sent to the terminal (unless
   a completer was asked for, which shows what it is about; not told apart from
   what concurrent writers print before all of them have been heard of) *)
Leaks(s, e) ==
    LET ok == Range(s.prompt) \cup {Cfg(s).mrune, 32, 10, 13, 8, 7} \cup Range(Texts(Pre(e)))
                 \cup Range(Hint(Cfg(s).intp, <<94, 67>>)) \cup Range(Hint(Cfg(s).eofp, <<94, 68>>))
    IN Cfg(s).mask /\ Cfg(s).comp = "tab" /\ ~(e.e = "key" /\ e.q) /\ \E i \in 1..Len(Out(e)) : Out(e)[i][1] = 0 /\ Out(e)[i][2] \notin ok

Differs(t, want) ==
    IF t.bad THEN "the terminal was sent an unknown sequence"
    ELSE IF Shows(t.rows) # Shows(want.rows) THEN "the screen shows something else"
    ELSE IF Settled(t).r # Settled(want).r \/ Settled(t).c # Settled(want).c
    THEN "the cursor is shown at another place"
    ELSE ""

SearchText(s) == (IF s.s.back THEN <<98, 99, 107>> ELSE <<102, 119, 100>>)
                    \o <<45, 105, 45, 115, 101, 97, 114, 99, 104, 58, 32>> \o s.s.data
Failing == <<102, 97, 105, 108, 105, 110, 103, 32>>

(* a candidate as the menu shows it, without blanks *)
Offered(s, i) == LET off == Min2(s.c.off, s.pos) IN Span(s.buf, s.pos - off, s.pos) \o s.c.cands[i]
Ink(t) == SelectSeq(t, LAMBDA ch : ch > 32 /\ Width(ch) > 0)

(* in a search there is one more line, in a menu the candidates below *)
Live(s, front, w, t) ==
    LET want == WithLine(s, front, w, s.buf, s.pos)
        below(x) == [want EXCEPT !.rows = Written(NextRow([want.end EXCEPT !.r = want.last, !.pend = FALSE,
                                                           !.rows = Grown(@, want.last)]), w, x).rows]
    IN IF s.s.on
       THEN \* what is found is drawn over as it is: not painted, without the marks
            LET case(x) == [x EXCEPT !.rows = [i \in 1..Len(@) |-> Upper(Plain(@[i]))]] IN
            Differs(case(t), case(below((IF s.s.fail THEN Failing ELSE <<>>) \o SearchText(s))))
       ELSE IF s.c.on
       THEN LET d == Differs([t EXCEPT !.rows = Take(@, Min2(Len(@), want.last))], want)
                menu == FlattenSeq([i \in 1..(Len(t.rows) - want.last) |-> Plain(t.rows[want.last + i])])
            IN IF d # "" \/ s.c.cands = <<>> THEN d
               ELSE IF Ink(menu) # FlattenSeq([i \in 1..Len(s.c.cands) |-> Ink(Offered(s, i))])
               THEN "the menu shows other candidates"
               ELSE IF s.c.sel /\ Ink(t.hl) # Ink(Offered(s, s.c.ch + 1)) THEN "another candidate is marked in the menu"
               ELSE ""
       ELSE Differs(t, want)

NextScreen(s, s2, e) ==
    LET w == s2.width
        term == Show([sc.term EXCEPT !.left = <<>>], w, Out(e))
        title == Title(sc.term.title, IF e.e = "api" THEN <<e>> ELSE Pre(e))
        home == /\ e.e = "key" /\ s2.res.k = "none"
                /\ Filtered(s, e.k) = [k |-> 12, ok |-> TRUE] /\ ~(VimOn(s) /\ ~s.ins)
    IN CASE term.title # title -> [sc EXCEPT !.term = term, !.err = "the window has another title"]
         [] e.e = "call" ->
              LET front == Settled(sc.term) IN
              [term |-> term, front |-> front, live |-> TRUE,
               err |-> IF e.blind \/ AtEnd(s2) \/ s2.fin THEN "" ELSE Live(s2, front, w, term)]
         [] e.e = "key" ->
              LET f1 == Written(sc.front, w, Texts(Pre(e)))
                  front == IF home THEN Blank ELSE f1 IN
              [term |-> term, front |-> front, live |-> TRUE,
               err |-> IF s2.susp > s.susp /\ Take(term.left, 1) # <<[rows |-> Shows(front.rows), r |-> front.r, c |-> front.c]>>
                       THEN "the line was on the screen while it was stopped"
                       ELSE IF e.q \/ AtEnd(s2) \/ s2.res.k # "none" THEN "" ELSE Live(s2, front, w, term)]
         [] e.e = "ret" ->
              LET s0 == IF s.fin /\ s.res.k = "none" THEN [s EXCEPT !.res = [k |-> "eof", t |-> <<>>]]
                        ELSE IF e.blind THEN RunLine(s) ELSE AtEof(s, 3)
                  front == IF s.fin /\ s.res.k = "none" THEN sc.front ELSE Ended(s0, s0.res, sc.front, w)
              IN [term |-> term, front |-> front, live |-> FALSE, err |-> Differs(term, front)]
         [] e.e = "api" ->
              LET front == IF e.f = "write" THEN Written(sc.front, w, e.t) ELSE sc.front
              IN [term |-> term, front |-> front, live |-> FALSE, err |-> Differs(term, front)]
         [] OTHER -> sc

Start0 == Written(Blank, Config0.width, Runs[r].above)
InitS == Init /\ sc = [term |-> Start0, front |-> Start0, live |-> FALSE, err |-> ""]
NextS == /\ sc.err = ""
         /\ Next
         /\ LET e == Runs[r].ev[l + 1] IN
            sc' = IF st'.err # "" THEN sc
                  ELSE IF (e.e \in {"key", "ret"} /\ Leaks(st, e)) \/ (e.e = "call" /\ Leaks(st', e)) THEN [sc EXCEPT !.err = "a typed character was printed"]
                  ELSE NextScreen(st, st', e)
         /\ sc'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> sc'.err,
               spec |-> [buf |-> st'.buf, pos |-> st'.pos, s |-> st'.s.on, c |-> st'.c.on,
                         front |-> [rows |-> sc'.front.rows, r |-> sc'.front.r, c |-> sc'.front.c],
                         shown |-> [rows |-> sc'.term.rows, r |-> sc'.term.r, c |-> sc'.term.c]]]))
SpecS == InitS /\ [][NextS]_svars
=============================================================================
