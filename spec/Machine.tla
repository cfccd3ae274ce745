------------------------------- MODULE Machine -------------------------------
(* The editor as a state machine over keys.

   A state is one record:
     buf pos kill       the line, the cursor, the remembered text
     prompt width
     cfgs               the configurations of the program (see Cfg below)
     ci                 the one in force; vci the one vi mode is taken from
     h                  its history; hs: those of the others
     disk               path -> content of the history files
     s                  incremental search
     c                  completion
     ins                vi: insert mode
     inp                what will be typed, not decoded yet
     fin                the input has ended, or the editor was closed
     res                how the current line ended, if it did
     bk                 what ReadPassword puts back
     cq lq              recorded answers of completer and listener, to be used
     err                what in the recorded run contradicts the machine

   A configuration: vim auto(save history) fold limit path width mask mrune
   unique comp ("none", "tab", "log", "fix") cands off lis ("none", "log") filt.     *)
EXTENDS Editor, History, Decoder, TLC

NoRes == [k |-> "none", t |-> <<>>]
NoSearch == [on |-> FALSE, back |-> TRUE, data |-> <<>>, fail |-> FALSE, src |-> 0, org |-> <<>>]
NoComp == [on |-> FALSE, sel |-> FALSE, cands |-> <<>>, off |-> -1, ch |-> -1,
           src |-> <<>>, hasSrc |-> FALSE, col |-> 1]
NoBackup == [ci |-> 0, prompt |-> <<>>, kill |-> <<>>]
Unset == [limit |-> -2]

Cfg(st) == st.cfgs[st.ci]
VimOn(st) == st.cfgs[st.vci].vim
Fail(st, msg) == IF st.err = "" THEN [st EXCEPT !.err = msg] ELSE st

-----------------------------------------------------------------------------
(* history and disk *)

(* switch to the history of configuration i, opening its file *)
UseHistory(st, i) ==
    LET old == [st.hs EXCEPT ![st.ci] = st.h]
        h0 == IF st.hs[i] = Unset THEN NewHistory(st.cfgs[i].limit, st.cfgs[i].path) ELSE old[i]
        o == IF h0.fd = "open" \/ h0.path = "" THEN [h |-> h0, file |-> <<>>]
             ELSE OpenHistory(h0, st.disk[h0.path])
    IN [st EXCEPT !.hs = old, !.h = o.h,
                  !.disk = IF h0.fd = "open" \/ h0.path = "" THEN @ ELSE [@ EXCEPT ![h0.path] = o.file]]

CloseHistory(h) == [h EXCEPT !.fd = IF @ = "open" THEN "closed" ELSE @]

NoteLine(st) == [st EXCEPT !.h = Note(@, st.buf)]

RecordLine(st, t) ==
    [st EXCEPT !.h = Record(st.h, t),
               !.disk = IF Records(IF st.h.items = <<>> THEN Push(st.h, <<>>) ELSE st.h, t) /\ st.h.fd = "open"
                        THEN [@ EXCEPT ![st.h.path] = @ \o t \o <<10>>] ELSE @]

-----------------------------------------------------------------------------
(* incremental search; fail: what is searched for was not found *)

SearchFor(st, new) ==
    IF st.s.data = <<>> THEN [st EXCEPT !.s.fail = FALSE]
    ELSE LET f == IF st.s.back
                  THEN FindBack(st.h, new, st.s.data, st.pos, Cfg(st).fold)
                  ELSE FindForw(st.h, new, st.s.data, st.pos, Cfg(st).fold)
         IN IF f.item = 0 THEN [st EXCEPT !.s.fail = TRUE]
            ELSE LET h1 == [st.h EXCEPT !.cur = f.item]
                 IN [st EXCEPT !.h = h1, !.buf = Shown(h1), !.s.fail = FALSE,
                               !.pos = IF st.s.back THEN f.at ELSE f.at + Len(st.s.data)]

CanSearch(st) == st.width > 0 /\ ~Cfg(st).mask
SearchKey(st, back) ==
    IF st.s.on THEN SearchFor([st EXCEPT !.s.back = back], FALSE)
    ELSE [st EXCEPT !.s = [NoSearch EXCEPT !.on = TRUE, !.back = back, !.src = st.h.cur, !.org = st.buf]]
SearchChar(st, ch) == SearchFor([st EXCEPT !.s.data = Append(@, ch)], TRUE)
SearchErase(st) ==
    IF st.s.data = <<>> THEN st
    ELSE SearchFor([st EXCEPT !.s.data = Take(@, Len(@) - 1)], TRUE)
LeaveSearch(st) == [st EXCEPT !.s = NoSearch]
CancelSearch(st) ==
    [st EXCEPT !.h.cur = st.s.src, !.buf = st.s.org, !.pos = Len(st.s.org), !.s = NoSearch]

-----------------------------------------------------------------------------
(* completion *)

(* the answer of the completer for the line and cursor as they are *)
Asked(st) ==
    LET k == Cfg(st).comp IN
    CASE k = "tab" -> [cands |-> <<<<9>>>>, off |-> 0]
      [] k = "fix" -> [cands |-> Cfg(st).cands, off |-> Cfg(st).off]
      [] k = "log" -> IF st.cq = <<>> THEN [cands |-> <<>>, off |-> 0]
                      ELSE [cands |-> Head(st.cq).cands, off |-> Head(st.cq).off]
      [] OTHER -> [cands |-> <<>>, off |-> 0]
AfterAsked(st) ==
    IF Cfg(st).comp # "log" THEN st
    ELSE IF st.cq = <<>> THEN Fail(st, "the completer was not asked")
    ELSE LET q == Head(st.cq)
             s1 == [st EXCEPT !.cq = Tail(@)]
         IN IF q.line # st.buf THEN Fail(s1, "the completer got another line")
            ELSE IF q.pos # st.pos THEN Fail(s1, "the completer got another cursor position")
            ELSE s1

(* columns of the grid of candidates *)
Columns(st) ==
    LET off == Min2(st.c.off, st.pos)
        same == Span(st.buf, st.pos - off, st.pos)
        w == MaxOf({WidthAll(st.c.cands[i]) : i \in 1..Len(st.c.cands)}) + WidthAll(same) + 1
        n == IF st.width <= 1 THEN 0 ELSE (st.width - 1) \div w
    IN IF n > 0 THEN n ELSE 1
DrawGrid(st) ==
    IF ~st.c.on \/ st.c.cands = <<>> THEN st ELSE [st EXCEPT !.c.col = Columns(st)]

LeaveSelect(st) ==
    [st EXCEPT !.c.sel = FALSE, !.c.cands = <<>>, !.c.ch = -1, !.c.off = -1,
               !.c.src = <<>>, !.c.hasSrc = FALSE]
LeaveComp(st) == LeaveSelect([st EXCEPT !.c.on = FALSE])

Choose(st, d) ==
    LET n == Len(st.c.cands) IN [st EXCEPT !.c.ch = (@ + d) % n]
DoSelect(st) ==
    IF Len(st.c.cands) = 1 THEN LeaveComp(Insert(st, st.c.cands[1]))
    ELSE DrawGrid(Choose(st, 1))

Complete(st) ==
    IF st.c.sel THEN DoSelect(st)
    ELSE IF st.c.on /\ st.c.hasSrc /\ st.buf = st.c.src
    THEN DoSelect(DrawGrid([st EXCEPT !.c.sel = TRUE, !.c.ch = -1]))
    ELSE LET s1 == [LeaveSelect(st) EXCEPT !.c.src = st.buf, !.c.hasSrc = TRUE]
             a == Asked(s1)
             s2 == AfterAsked(s1)
             n == CommonLen(a.cands)
         IN IF a.cands = <<>> THEN LeaveComp(s2)
            ELSE IF ~st.c.on /\ Len(a.cands) = 1 THEN LeaveComp(Insert(s2, a.cands[1]))
            ELSE IF ~st.c.on /\ n > 0 THEN LeaveComp(Insert(s2, Take(a.cands[1], n)))
            ELSE DrawGrid([s2 EXCEPT !.c.on = TRUE, !.c.cands = a.cands, !.c.off = a.off])

GridSize(st) == ((Len(st.c.cands) + st.c.col - 1) \div st.c.col) * st.c.col

(* a key while a candidate is selected; keep: that was all of it *)
SelectKey(st, k) ==
    LET n == Len(st.c.cands)
        col == st.c.col
        ch == st.c.ch
        keep(s) == [s |-> DrawGrid(s), keep |-> TRUE]
        pass(s) == [s |-> s, keep |-> FALSE]
    IN CASE k \in {13, 10} -> pass(LeaveComp(Insert(st, At(st.c.cands, ch))))
         [] k = 1 -> keep(Choose(st, -(ch % col)))
         [] k = 5 -> keep([st EXCEPT !.c.ch = Min2(n - 1, ch + col - (ch % col) - 1)])
         [] k \in {9, 6} -> keep(DoSelect(st))
         [] k \in {7, 3} -> pass(LeaveComp(st))
         [] k = 14 -> keep([st EXCEPT !.c.ch =
                LET t == ch + col IN
                IF t >= GridSize(st) THEN t - GridSize(st)
                ELSE IF t >= n THEN t + col - GridSize(st) ELSE t])
         [] k = 2 -> keep(Choose(st, -1))
         [] k = 16 -> keep([st EXCEPT !.c.ch =
                LET t == ch - col
                    u == t + GridSize(st) IN
                IF t >= 0 THEN t ELSE IF u >= n THEN u - col ELSE u])
         [] OTHER -> pass(LeaveSelect(st))

-----------------------------------------------------------------------------
(* vi mode.  k = 0: nothing is left to do.                                     *)

Operand(st) == Decode(st.inp, VimOn(st))
Took(st) == [st EXCEPT !.inp = Operand(st).rest]

VimMove(st, k) ==
    LET a == Operand(st).k
        s1 == Took(st)
    IN CASE k = 104 -> [s |-> st, k |-> 2]
         [] k = 106 -> [s |-> st, k |-> 14]
         [] k = 107 -> [s |-> st, k |-> 16]
         [] k = 108 -> [s |-> st, k |-> 6]
         [] k \in {48, 94} -> [s |-> Home(st), k |-> 0]
         [] k = 36 -> [s |-> End(st), k |-> 0]
         [] k = 120 -> [s |-> LET d == DeleteChar(st) IN IF d.pos = Len(d.buf) THEN Left(d) ELSE d, k |-> 0]
         [] k = 114 -> [s |-> IF a \in {EofKey, 27} THEN s1 ELSE Replace(s1, a), k |-> 0]
         [] k = 100 -> [s |-> CASE a = 100 -> KillLine(s1) [] a = 119 -> KillWordRight(s1)
                                [] a = 104 -> Backspace(s1) [] a = 108 -> DeleteChar(s1)
                                [] OTHER -> s1, k |-> 0]
         [] k = 112 -> [s |-> Yank(st), k |-> 0]
         [] k \in {98, 66} -> [s |-> WordLeft(st), k |-> 0]
         [] k \in {119, 87} -> [s |-> WordRight(st), k |-> 0]
         [] k \in {101, 69} -> [s |-> WordEnd(st), k |-> 0]
         [] k \in {102, 70, 116, 84} ->
               [s |-> IF a = 27 THEN s1 ELSE FindChar(s1, a, k \in {116, 84}, k \in {70, 84}), k |-> 0]
VimMoves == {104, 106, 107, 108, 48, 94, 36, 120, 114, 100, 112, 98, 66, 119, 87, 101, 69, 102, 70, 116, 84}

VimInsert(st, k) ==
    LET a == Operand(st).k
        s1 == Took(st)
        s2 == CASE k = 105 -> st [] k = 73 -> Home(st) [] k = 97 -> Right(st) [] k = 65 -> End(st)
                [] k = 115 -> DeleteChar(st) [] k = 83 -> KillLine(st)
                [] k = 99 -> CASE a = 99 -> KillLine(s1) [] a = 119 -> KillWordRight(s1)
                               [] a = 104 -> Backspace(s1) [] a = 108 -> DeleteChar(s1)
                               [] OTHER -> s1
    IN [s2 EXCEPT !.ins = TRUE]
VimInserts == {105, 73, 97, 65, 115, 83, 99}

VimKey(st, k) ==
    IF ~st.ins
    THEN IF k \in {13, 10, 3} THEN [s |-> [st EXCEPT !.ins = TRUE], k |-> k]
         ELSE IF k \in VimMoves THEN VimMove(st, k)
         ELSE IF k \in VimInserts THEN [s |-> VimInsert(st, k), k |-> 0]
         ELSE [s |-> st, k |-> 0]
    ELSE IF k = 27 THEN [s |-> [st EXCEPT !.ins = FALSE], k |-> 0]
    ELSE [s |-> st, k |-> k]

-----------------------------------------------------------------------------
(* the keys proper.  ks, kc: search, completion goes on; uh: the line belongs to
   the history item shown                                                       *)

EndLine(st, kind, t) ==
    [st EXCEPT !.buf = <<>>, !.pos = 0, !.res = [k |-> kind, t |-> t]]

R(st) == [s |-> st, ks |-> FALSE, kc |-> FALSE, uh |-> TRUE]
Keep(st) == [s |-> st, ks |-> TRUE, kc |-> FALSE, uh |-> TRUE]
Listing(st) == [s |-> st, ks |-> FALSE, kc |-> TRUE, uh |-> TRUE]
NoNote(st) == [s |-> st, ks |-> FALSE, kc |-> FALSE, uh |-> FALSE]

SearchOff(st) == IF st.s.on THEN LeaveSearch(st) ELSE st

MainKey(st, k) ==
    CASE k = 7 ->
           LET s1 == IF st.s.on THEN CancelSearch(st) ELSE st
           IN R(IF s1.c.on THEN LeaveComp(s1) ELSE s1)
      [] k = 9 -> IF Cfg(st).comp = "none" \/ st.width <= 0 THEN R(st) ELSE Listing(Complete(st))
      [] k \in {18, 19} -> IF CanSearch(st) THEN Keep(SearchKey(st, k = 18)) ELSE R(st)
      [] k = 21 -> R(KillToStart(st))
      [] k = 11 -> Listing(KillToEnd(st))
      [] k = MetaT -> R(st)
      [] k = MetaF -> R(WordRight(st))
      [] k = 20 -> R(Transpose(st))
      [] k = MetaB -> R(WordLeft(st))
      [] k = MetaD -> R(KillWordRight(st))
      [] k = 1 -> R(Home(st))
      [] k = 5 -> R(End(st))
      [] k \in {127, 8} ->
           IF st.s.on THEN Keep(SearchErase(st))
           ELSE IF st.buf = <<>> THEN R(st)
           ELSE LET s1 == Backspace(st)
                IN R(IF s1.c.on /\ s1.width > 0 THEN Complete(s1) ELSE s1)
      [] k = 12 -> R(st)
      [] k = 26 -> R([st EXCEPT !.susp = @ + 1])
      [] k \in {MetaBackspace, 23} -> R(KillWordLeft(st))
      [] k = 25 -> R(Yank(st))
      [] k \in {13, 10} ->
           LET s1 == SearchOff(st)
               t == s1.buf
               s2 == EndLine(s1, "line", t)
           IN IF Cfg(st).auto THEN R(RecordLine(s2, t))
              ELSE NoNote([s2 EXCEPT !.h = Revert(@)])
      [] k = 2 -> R(Left(st))
      [] k = 6 -> R(Right(st))
      [] k = 16 -> R(IF HasPrev(st.h)
                     THEN LET h1 == ToPrev(st.h) IN SetLine([st EXCEPT !.h = h1], Shown(h1), Len(Shown(h1)))
                     ELSE st)
      [] k = 14 -> R(IF HasNext(st.h)
                     THEN LET h1 == ToNext(st.h) IN SetLine([st EXCEPT !.h = h1], Shown(h1), Len(Shown(h1)))
                     ELSE st)
      [] k = 4 ->
           IF st.buf # <<>> \/ st.c.on \/ st.s.on THEN R(DeleteChar(st))
           ELSE NoNote(EndLine([st EXCEPT !.h = Revert(@)], "eof", <<>>))
      [] k = 3 ->
           IF st.s.on THEN R(CancelSearch(st))
           ELSE IF st.c.on THEN R(LeaveComp(st))
           ELSE NoNote(EndLine([st EXCEPT !.h = Revert(@)], "int", st.buf))
      [] OTHER ->
           IF st.s.on THEN Keep(SearchChar(st, k))
           ELSE LET s1 == Insert(st, <<k>>)
                IN IF s1.c.on THEN IF s1.width > 0 THEN Listing(Complete(s1)) ELSE Listing(s1)
                   ELSE R(s1)

(* the listener sees the line and may answer with another one *)
Listen(st, k) ==
    IF Cfg(st).lis # "log" THEN st
    ELSE IF st.lq = <<>> THEN Fail(st, "the listener was not called")
    ELSE LET q == Head(st.lq)
             s1 == [st EXCEPT !.lq = Tail(@)]
             s2 == IF q.ok THEN SetLine(s1, q.nline, q.npos) ELSE s1
         IN IF q.line # st.buf THEN Fail(s2, "the listener got another line")
            ELSE IF q.pos # st.pos THEN Fail(s2, "the listener got another cursor position")
            ELSE IF q.key # k THEN Fail(s2, "the listener got another key")
            ELSE s2

Finish(r, k) ==
    LET s1 == Listen(r.s, k)
        s2 == IF ~r.ks /\ s1.s.on THEN LeaveSearch(s1)
              ELSE IF s1.c.on THEN IF r.kc THEN DrawGrid(s1) ELSE LeaveComp(s1)
              ELSE s1
    IN IF r.uh /\ ~s2.s.on THEN NoteLine(s2) ELSE s2

AfterSelect(st, k) ==
    LET v == IF VimOn(st) THEN VimKey(st, k) ELSE [s |-> st, k |-> k]
    IN IF v.k = 0 THEN IF v.s.s.on THEN v.s ELSE NoteLine(v.s)
       ELSE Finish(MainKey(v.s, v.k), v.k)

(* one key, after decoder and filter *)
ProcessKey(st, k) ==
    IF st.c.sel
    THEN LET r == SelectKey(st, k) IN
         IF r.keep THEN r.s
         ELSE IF k \in {13, 10} THEN NoteLine(r.s)
         ELSE IF k \in {3, 7} THEN r.s
         ELSE AfterSelect(r.s, k)
    ELSE AfterSelect(st, k)

(* the end of the input submits what is there, and there is nothing after it *)
Process(st, k) ==
    IF k # EofKey THEN ProcessKey(st, k)
    ELSE IF st.buf = <<>> THEN [st EXCEPT !.fin = TRUE, !.res = [k |-> "eof", t |-> <<>>]]
    ELSE LET s1 == ProcessKey(st, 13) IN [s1 EXCEPT !.fin = s1.res.k # "none"]

(* the filter of the configuration: pairs <<key, new key, processed>> *)
Filtered(st, k) ==
    LET F == {i \in 1..Len(Cfg(st).filt) : Cfg(st).filt[i][1] = k}
    IN IF k = EofKey \/ F = {} THEN [k |-> k, ok |-> TRUE]
       ELSE LET f == Cfg(st).filt[MinOf(F)] IN [k |-> f[2], ok |-> f[3] = 1]

(* the next key of the input is taken and processed *)
NextKey(st) == Decode(st.inp, VimOn(st))
StepKey(st) ==
    LET d == NextKey(st)
        s1 == [st EXCEPT !.inp = d.rest]
        f == Filtered(st, d.k)
    IN IF f.ok THEN Process(s1, f.k) ELSE s1

RECURSIVE RunLine(_)
RunLine(st) == IF st.res.k # "none" THEN st ELSE RunLine(StepKey(st))

-----------------------------------------------------------------------------
(* calls of the program *)

SetConfigTo(st, i) ==
    IF i = st.ci THEN st
    ELSE LET closed == IF st.hs[i] = Unset THEN [st EXCEPT !.h = CloseHistory(@)] ELSE st
             s1 == UseHistory(closed, i)
         IN [s1 EXCEPT !.ci = i, !.prompt = st.cfgs[i].prompt, !.c = NoComp, !.s = NoSearch]

Default(st, t) == NoteLine(SetLine(st, t, Len(t)))

EnterPassword(st, i) ==
    [SetConfigTo(st, i) EXCEPT !.bk = [ci |-> st.ci, prompt |-> st.prompt, kill |-> st.kill]]
LeavePassword(st) ==
    [SetConfigTo(st, st.bk.ci) EXCEPT !.prompt = st.bk.prompt, !.kill = st.bk.kill, !.bk = NoBackup]

NewPath(st, p) ==
    LET s1 == [st EXCEPT !.cfgs[st.ci].path = p, !.s = NoSearch]
        o == IF p = "" THEN [h |-> NewHistory(Cfg(st).limit, p), file |-> <<>>]
             ELSE OpenHistory(NewHistory(Cfg(st).limit, p), st.disk[p])
    IN [s1 EXCEPT !.h = o.h, !.disk = IF p = "" THEN @ ELSE [@ EXCEPT ![p] = o.file]]

InitState(cfgs, ci, inp, disk) ==
    LET st == [buf |-> <<>>, pos |-> 0, kill |-> <<>>, prompt |-> cfgs[ci].prompt,
               width |-> cfgs[ci].width,
               cfgs |-> cfgs, ci |-> ci, vci |-> ci,
               h |-> NewHistory(cfgs[ci].limit, cfgs[ci].path),
               hs |-> [i \in 1..Len(cfgs) |-> Unset], disk |-> disk,
               s |-> NoSearch, c |-> NoComp, ins |-> TRUE, inp |-> inp, fin |-> FALSE,
               res |-> NoRes, bk |-> NoBackup, susp |-> 0, cq |-> <<>>, lq |-> <<>>, err |-> ""]
        o == IF st.h.path = "" THEN [h |-> st.h, file |-> <<>>] ELSE OpenHistory(st.h, disk[st.h.path])
    IN [st EXCEPT !.h = o.h, !.disk = IF st.h.path = "" THEN @ ELSE [@ EXCEPT ![st.h.path] = o.file]]

-----------------------------------------------------------------------------
(* what must hold in every state *)

CursorInLine(st) == st.pos >= 0 /\ st.pos <= Len(st.buf)
HistoryInBounds(st) ==
    /\ st.h.cur \in {-1, 0} \cup 1..Len(st.h.items)
    /\ Len(st.h.items) <= Max2(st.h.limit, 0) + 1
ChoiceInList(st) == st.c.sel => st.c.ch >= 0 /\ st.c.ch < Len(st.c.cands)
StateOK(st) == CursorInLine(st) /\ HistoryInBounds(st) /\ ChoiceInList(st)
=============================================================================
