------------------------------- MODULE Editor -------------------------------
(* The edited line: fields buf, pos, kill of a larger record.                  *)
EXTENDS Text

SetLine(s, b, p) == [s EXCEPT !.buf = b, !.pos = p]
MoveTo(s, p) == [s EXCEPT !.pos = p]
Remember(s, t) == [s EXCEPT !.kill = t]

(* the characters in [i, j) leave the line and are remembered *)
KillSpan(s, i, j, p) ==
    [s EXCEPT !.kill = Span(s.buf, i, j), !.buf = Cut(s.buf, i, j), !.pos = p]

WordStartsBefore(b, p) == {i \in 1..(p - 1) : ~IsWordBreak(At(b, i)) /\ IsWordBreak(At(b, i - 1))}
PrevWord(b, p) == LET S == WordStartsBefore(b, p) IN IF S = {} THEN 0 ELSE MaxOf(S)
WordStartsAfter(b, p) == {i \in (p + 1)..(Len(b) - 1) : ~IsWordBreak(At(b, i)) /\ IsWordBreak(At(b, i - 1))}
NextWord(b, p) == LET S == WordStartsAfter(b, p) IN IF S = {} THEN Len(b) ELSE MinOf(S)

EndWord(b, p) ==
    IF p = Len(b) THEN p
    ELSE LET q == IF p + 1 < Len(b) /\ ~IsWordBreak(At(b, p)) /\ IsWordBreak(At(b, p + 1))
                  THEN p + 1 ELSE p
             E == {i \in (q + 1)..(Len(b) - 1) : IsWordBreak(At(b, i)) /\ ~IsWordBreak(At(b, i - 1))}
         IN IF E = {} THEN Len(b) ELSE MinOf(E) - 1

Insert(s, t) == SetLine(s, Ins(s.buf, s.pos, t), s.pos + Len(t))
Left(s) == IF s.pos = 0 THEN s ELSE MoveTo(s, s.pos - 1)
Right(s) == IF s.pos = Len(s.buf) THEN s ELSE MoveTo(s, s.pos + 1)
Home(s) == MoveTo(s, 0)
End(s) == MoveTo(s, Len(s.buf))
WordLeft(s) == MoveTo(s, PrevWord(s.buf, s.pos))
WordRight(s) == MoveTo(s, NextWord(s.buf, s.pos))
WordEnd(s) == MoveTo(s, EndWord(s.buf, s.pos))
Backspace(s) == IF s.pos = 0 THEN s ELSE SetLine(s, Cut(s.buf, s.pos - 1, s.pos), s.pos - 1)
DeleteChar(s) == IF s.pos = Len(s.buf) THEN s ELSE KillSpan(s, s.pos, s.pos + 1, s.pos)
Replace(s, c) == IF s.pos = Len(s.buf) THEN s ELSE [s EXCEPT !.buf[s.pos + 1] = c]

Transpose(s) ==
    LET b == s.buf
        p == IF s.pos = 0 THEN 1 ELSE IF s.pos >= Len(b) THEN Len(b) - 1 ELSE s.pos
    IN IF Len(b) = 0 THEN s
       ELSE IF Len(b) = 1 THEN MoveTo(s, 1)
       ELSE SetLine(s, [b EXCEPT ![p] = b[p + 1], ![p + 1] = b[p]], p + 1)

KillToEnd(s) == KillSpan(s, s.pos, Len(s.buf), s.pos)
KillToStart(s) == IF s.pos = 0 THEN s ELSE KillSpan(s, 0, s.pos, 0)
KillWordLeft(s) ==
    IF s.pos = 0 THEN s
    ELSE LET w == PrevWord(s.buf, s.pos) IN KillSpan(s, w, s.pos, w)
(* Meta-d stops before the last blank in front of the next word *)
KillWordRight(s) ==
    LET b == s.buf
        N == {i \in s.pos..(Len(b) - 1) : ~IsWordBreak(At(b, i))}
        first == IF N = {} THEN Len(b) ELSE MinOf(N)
        E == {i \in (first + 1)..(Len(b) - 1) : ~IsWordBreak(At(b, i)) /\ IsWordBreak(At(b, i - 1))}
    IN IF s.pos = Len(b) THEN s
       ELSE IF E = {} THEN KillToEnd(s)
       ELSE KillSpan(s, s.pos, MinOf(E) - 1, s.pos)
KillLine(s) == KillSpan(s, 0, Len(s.buf), 0)
Yank(s) == IF s.kill = <<>> THEN s ELSE Insert(s, s.kill)

(* vi f F t T *)
FindChar(s, c, till, back) ==
    IF back
    THEN LET F == {i \in 0..(s.pos - 1) : At(s.buf, i) = c}
         IN IF F = {} THEN s ELSE MoveTo(s, IF till THEN MaxOf(F) + 1 ELSE MaxOf(F))
    ELSE LET F == {i \in (s.pos + 1)..(Len(s.buf) - 1) : At(s.buf, i) = c}
         IN IF F = {} THEN s ELSE MoveTo(s, IF till THEN MinOf(F) - 1 ELSE MinOf(F))
=============================================================================
