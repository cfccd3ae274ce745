------------------------------- MODULE History ------------------------------
(* The history of one configuration.  items: the entries, oldest first, the
   last one being the line that is edited; each has the recorded text src and a
   scratch copy tmp, which counts as long as ver is the history's.  cur is the
   item shown: 0 none, -1 one (det) that was dropped since.                     *)
EXTENDS Text

Item(t) == [src |-> t, tmp |-> <<>>, ver |-> 0]
NewHistory(limit, path) ==
    [items |-> <<>>, ver |-> 0, cur |-> 0, det |-> Item(<<>>), on |-> TRUE,
     limit |-> limit, path |-> path, fd |-> "nil", loaded |-> FALSE]

Push(h, t) == [h EXCEPT !.items = Append(@, Item(t)), !.cur = Len(h.items) + 1]

Compact(h) ==
    LET n == Max2(0, Min2(Len(h.items), Len(h.items) - h.limit))
    IN IF n = 0 THEN h
       ELSE [h EXCEPT !.items = Drop(@, n),
                      !.cur = IF @ > n THEN @ - n ELSE IF @ >= 1 THEN -1 ELSE @,
                      !.det = IF h.cur \in 1..n THEN h.items[h.cur] ELSE @]

CurItem(h) == IF h.cur = -1 THEN h.det ELSE h.items[h.cur]
ShowItem(h, it) == IF it.ver = h.ver THEN it.tmp ELSE it.src

(* the line as it is now belongs to the current item *)
SetCur(h0, t, commit) ==
    LET h == IF h0.cur = 0 THEN Push(h0, <<>>) ELSE h0
        it == IF commit THEN [CurItem(h) EXCEPT !.ver = h.ver, !.src = t]
                        ELSE [CurItem(h) EXCEPT !.ver = h.ver, !.tmp = t]
    IN Compact(IF h.cur = -1 THEN [h EXCEPT !.det = it] ELSE [h EXCEPT !.items[h.cur] = it])

Note(h, t) == SetCur(h, t, FALSE)

Revert(h) == [h EXCEPT !.ver = @ + 1, !.cur = Len(h.items)]

CleanLast(h) ==
    LET n == Len(h.items)
    IN [h EXCEPT !.cur = n, !.ver = @ + 1, !.items[n].src = <<>>, !.items[n].tmp = <<>>]

(* would this text become an entry? *)
Records(h, t) ==
    /\ h.on
    /\ t # <<>>
    /\ ~(Len(h.items) >= 2 /\ h.items[Len(h.items) - 1].src = t)

Record(h0, t) ==
    IF ~h0.on THEN Revert(h0)
    ELSE LET h == IF h0.items = <<>> THEN Push(h0, <<>>) ELSE h0 IN
         IF ~Records(h, t) THEN CleanLast(h)
         ELSE LET c == SetCur([h EXCEPT !.cur = Len(h.items)], t, TRUE)
              IN Push([c EXCEPT !.ver = @ + 1], <<>>)

HasPrev(h) == h.cur >= 2
HasNext(h) == h.cur >= 1 /\ h.cur < Len(h.items)
ToPrev(h) == [h EXCEPT !.cur = @ - 1]
ToNext(h) == [h EXCEPT !.cur = @ + 1]
Shown(h) == ShowItem(h, CurItem(h))

ClearHistory(h) == [h EXCEPT !.items = <<>>, !.cur = 0]

(* search: the item and the place, or item 0.  The current item is searched up to
   (from) the cursor only, moved over the searched text if that is new.          *)
Indices(h) == IF h.cur = -1 THEN {-1} ELSE IF h.cur = 0 THEN {} ELSE 1..Len(h.items)
ItemAt(h, i) == IF i = -1 THEN h.det ELSE h.items[i]

BackAt(h, i, t, start, fold) ==
    LET it == ShowItem(h, ItemAt(h, i))
        s == IF i = h.cur /\ Len(it) >= start THEN Take(it, start) ELSE it
    IN LastMatch(s, t, fold)
FindBack(h, new, t, pos, fold) ==
    LET start == IF new THEN pos + Len(t) ELSE pos
        C == {i \in Indices(h) : i <= h.cur /\ BackAt(h, i, t, start, fold) >= 0}
    IN IF C = {} THEN [item |-> 0, at |-> -1]
       ELSE [item |-> MaxOf(C), at |-> BackAt(h, MaxOf(C), t, start, fold)]

ForwAt(h, i, t, start, fold) ==
    LET it == ShowItem(h, ItemAt(h, i)) IN
    IF i = h.cur
    THEN IF Len(it) - 1 >= start
         THEN LET m == FirstMatch(Drop(it, start), t, fold) IN IF m < 0 THEN -1 ELSE m + start
         ELSE -1
    ELSE FirstMatch(it, t, fold)
FindForw(h, new, t, pos, fold) ==
    LET start == IF new THEN Max2(0, pos - Len(t)) ELSE pos
        C == {i \in Indices(h) : i >= h.cur /\ ForwAt(h, i, t, start, fold) >= 0}
    IN IF C = {} THEN [item |-> 0, at |-> -1]
       ELSE [item |-> MinOf(C), at |-> ForwAt(h, MinOf(C), t, start, fold)]

(* opening the file of a history: the lines become items, the newest limit of
   them; a longer file is rewritten.  Returns the history and the file.         *)
RECURSIVE LoadItems(_, _)
LoadItems(ls, limit) ==
    LET L == SelectSeq([i \in 1..Len(ls) |-> Trim(ls[i])], LAMBDA x : x # <<>>)
        n == Max2(0, Len(L) - limit)
    IN [i \in 1..(Len(L) - n) |-> Item(L[n + i])]
Unopenable == <<-1>>  \* a file that cannot be opened: the history is in memory only
OpenHistory(h, file) ==
    IF h.path = "" \/ h.limit < 0 THEN [h |-> h, file |-> file]
    ELSE IF file = Unopenable THEN [h |-> h, file |-> file]
    ELSE IF h.loaded THEN [h |-> [h EXCEPT !.fd = "open"], file |-> file]
    ELSE LET ls == LinesOf(file)
             its == LoadItems(ls, h.limit)
             closed == IF file # <<>> /\ file[Len(file)] # 10 THEN Append(file, 10) ELSE file
             f == IF Len(ls) > h.limit
                  THEN FileOf([i \in 1..Len(its) |-> its[i].src]) ELSE closed
         IN [h |-> Push([h EXCEPT !.items = its, !.ver = @ + 1, !.loaded = TRUE, !.fd = "open"], <<>>),
             file |-> f]
=============================================================================
