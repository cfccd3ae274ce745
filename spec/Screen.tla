-------------------------------- MODULE Screen --------------------------------
(* A terminal with automatic margins, as far as the editor uses one.

   rows   what it shows: sequences of cells, without the blanks at the end; a cell
          is the code of a character, 0 for the right half of a wide one
   r c    the cursor, row from 1, column from 0
   pend   a character was written in the last column: the next one wraps
   bad    it was sent something unknown
   on hl  whether what is written stands out, and what did so last
   title  of its window
   left   what it showed whenever it was handed back

   Output is a sequence of tokens: <<0, ch>> a character, <<1, n>> .. <<4, n>> the
   cursor n up, down, right, left, <<5, n>> erase in display, <<6, n>> erase in
   line, <<7, 0>> cursor home, <<8, 1>> what follows stands out, <<8, 0>> no more,
   <<11, 0>> a title begins, <<10, ch>> goes on, <<12, 1>>
   raw mode begins, <<12, 0>> it ends, <<9, x>> anything else.                    *)
EXTENDS Text, SequencesExt

Blank == [rows |-> <<<<>>>>, r |-> 1, c |-> 0, pend |-> FALSE, bad |-> FALSE, on |-> FALSE, hl |-> <<>>, title |-> <<>>, left |-> <<>>]

Grown(rows, r) == IF Len(rows) >= r THEN rows ELSE rows \o [i \in 1..(r - Len(rows)) |-> <<>>]
Padded(row, n) == IF Len(row) >= n THEN row ELSE row \o Rep(32, n - Len(row))

(* a wide character of which one half is overwritten is gone *)
Halved(row, c) ==                     \* about to write from column c
    IF c < Len(row) /\ c > 0 /\ row[c + 1] = 0 THEN [row EXCEPT ![c] = 32, ![c + 1] = 32] ELSE row
SetCells(row, c, cells) ==
    LET n == Len(cells)
        p == Halved(Halved(Padded(row, c + n), c), c + n)
    IN SubSeq(p, 1, c) \o cells \o SubSeq(p, c + n + 1, Len(p))

Keep0(row, n) == SubSeq(row, 1, Min2(n, Len(row)))
NextRow(t) == [t EXCEPT !.r = @ + 1, !.c = 0, !.pend = FALSE, !.rows = Grown(@, t.r + 1)]

(* a mark is drawn over the character before it *)
MarkUnit == 2000000
Marked(cell, ch) == (cell % MarkUnit) + MarkUnit * ((((cell \div MarkUnit) * 31 + ch) % 1000) + 1)
Plain(row) == [i \in 1..Len(row) |-> row[i] % MarkUnit]
PutMark(t, ch) ==
    LET c == IF t.pend THEN t.c ELSE t.c - 1
        row == t.rows[t.r]
        c1 == IF c >= 0 /\ c < Len(row) /\ row[c + 1] = 0 THEN c - 1 ELSE c
    IN IF c1 < 0 \/ c1 >= Len(row) THEN t
       ELSE [t EXCEPT !.rows[t.r][c1 + 1] = Marked(@, ch)]

(* comparing: blanks at the end of a row and empty rows at the end do not show *)
RowShows(row) ==
    LET N == {i \in 1..Len(row) : row[i] # 32} IN IF N = {} THEN <<>> ELSE Take(row, MaxOf(N))
Shows(rows) ==
    LET s == [i \in 1..Len(rows) |-> RowShows(rows[i])]
        N == {i \in 1..Len(s) : s[i] # <<>>}
    IN IF N = {} THEN <<>> ELSE Take(s, MaxOf(N))

Put(t, w, ch) ==
    LET n == Width(ch) IN
    IF n = 0 THEN PutMark(t, ch)
    ELSE LET t1 == IF t.pend \/ t.c + n > w THEN NextRow(t) ELSE t
             t2 == [t1 EXCEPT !.rows[t1.r] = SetCells(@, t1.c, IF n = 1 THEN <<ch>> ELSE <<ch, 0>>)]
         IN IF t1.c + n >= w THEN [t2 EXCEPT !.c = w - 1, !.pend = TRUE]
            ELSE [t2 EXCEPT !.c = @ + n]

Char(t, w, ch) ==
    CASE ch = 10 -> NextRow(t)
      [] ch = 13 -> [t EXCEPT !.c = 0, !.pend = FALSE]
      [] ch = 8 -> [t EXCEPT !.c = Max2(0, @ - 1), !.pend = FALSE]
      [] ch = 9 -> [t EXCEPT !.c = Min2(w - 1, (@ \div 8 + 1) * 8)]
      [] ch < 32 \/ ch \in 127..159 -> t
      [] OTHER -> Put(t, w, ch)

Step(t, w, k) ==
    CASE k[1] = 0 -> IF t.on THEN [Char(t, w, k[2]) EXCEPT !.hl = Append(@, k[2])] ELSE Char(t, w, k[2])
      [] k[1] = 8 -> IF k[2] = 1 /\ ~t.on THEN [t EXCEPT !.on = TRUE, !.hl = <<>>] ELSE [t EXCEPT !.on = k[2] = 1]
      [] k[1] = 1 -> [t EXCEPT !.r = Max2(1, @ - k[2]), !.pend = FALSE]
      [] k[1] = 2 -> [t EXCEPT !.r = @ + k[2], !.pend = FALSE, !.rows = Grown(@, t.r + k[2])]
      [] k[1] = 3 -> [t EXCEPT !.c = Min2(w - 1, @ + k[2]), !.pend = FALSE]
      [] k[1] = 4 -> [t EXCEPT !.c = Max2(0, @ - k[2]), !.pend = FALSE]
      [] k[1] = 5 /\ k[2] = 0 ->
           [t EXCEPT !.rows = [i \in 1..Len(@) |-> IF i < t.r THEN @[i] ELSE IF i = t.r THEN Keep0(@[i], t.c) ELSE <<>>],
                     !.hl = <<>>]
      [] k[1] = 5 /\ k[2] = 2 -> [t EXCEPT !.rows = [i \in 1..Len(@) |-> <<>>]]
      [] k[1] = 6 /\ k[2] = 0 -> [t EXCEPT !.rows[t.r] = Keep0(@, t.c)]
      [] k[1] = 6 /\ k[2] = 2 -> [t EXCEPT !.rows[t.r] = <<>>]
      [] k[1] = 11 -> [t EXCEPT !.title = <<>>]
      [] k[1] = 10 -> [t EXCEPT !.title = Append(@, k[2])]
      [] k[1] = 12 -> [t EXCEPT !.left = IF k[2] = 1 THEN @ ELSE Append(@, [rows |-> Shows(t.rows), r |-> t.r, c |-> t.c])]
      [] k[1] = 7 -> [t EXCEPT !.r = 1, !.c = 0, !.pend = FALSE]
      [] OTHER -> [t EXCEPT !.bad = TRUE]

Show(t, w, toks) == FoldLeft(LAMBDA a, k : Step(a, w, k), t, toks)
Written(t, w, text) == FoldLeft(LAMBDA a, ch : Char(a, w, ch), t, text)

(* where the next character goes if it is narrow *)
Settled(t) == IF t.pend THEN NextRow(t) ELSE t
=============================================================================
