-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of code points.  Positions are 0-based, as in the API. *)
EXTENDS Integers, Sequences, FiniteSets

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

At(s, i) == s[i + 1]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Span(s, i, j) == SubSeq(s, i + 1, j)             \* the characters in [i, j)
Cut(s, i, j) == Take(s, i) \o Drop(s, j)         \* without those in [i, j)
Ins(s, i, t) == Take(s, i) \o t \o Drop(s, i)
Rep(x, n) == [i \in 1..n |-> x]

IsLetter(c) == c \in 97..122 \/ c \in 65..90
IsDigit(c) == c \in 48..57
IsWordBreak(c) == ~(IsLetter(c) \/ IsDigit(c))

IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                \/ c \in 8192..8202

TabWidth == 4
(* characters without a cell: controls, combining marks, format characters *)
IsZeroWidth(c) == c < 32 \/ c \in 127..159 \/ c = 173 \/ c \in 768..879 \/ c \in 1155..1161 \/ c \in 1425..1469
                \/ c \in 1611..1631 \/ c \in 8203..8207 \/ c \in 8234..8238 \/ c \in 8288..8292 \/ c \in 8400..8432
                \/ c \in 12330..12333 \/ c \in {12441, 12442} \/ c \in 65024..65039 \/ c \in 65056..65071
                \/ c = 65279 \/ c \in 65529..65531
(* two cells: East Asian wide and fullwidth characters (not emoji, about which
   terminals differ)                                                            *)
IsWide(c) == \/ c \in 4352..4447 \/ c \in 11904..12350 \/ c \in 12353..42191 \/ c \in 43360..43388
             \/ c \in 44032..55203 \/ c \in 63744..64255 \/ c \in 65040..65049 \/ c \in 65072..65135
             \/ c \in 65281..65376 \/ c \in 65504..65510 \/ c \in 94176..101640 \/ c \in 110576..111355
             \/ c \in 131072..196605 \/ c \in 196608..262141
Width(c) == IF c = 9 THEN TabWidth
            ELSE IF IsZeroWidth(c) THEN 0
            ELSE IF IsWide(c) THEN 2 ELSE 1

RECURSIVE WidthFrom(_, _)
WidthFrom(s, i) == IF i > Len(s) THEN 0 ELSE Width(s[i]) + WidthFrom(s, i + 1)
WidthAll(s) == WidthFrom(s, 1)

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* Case is folded for ASCII letters only. *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
SameChar(a, b, fold) == a = b \/ (fold /\ Lower(a) = Lower(b))

MatchAt(s, t, i, fold) ==
    /\ i >= 0 /\ i + Len(t) <= Len(s)
    /\ \A j \in 1..Len(t) : SameChar(s[i + j], t[j], fold)

(* first and last place at which t occurs in s, -1 if none *)
FirstMatch(s, t, fold) ==
    LET M == {i \in 0..(Len(s) - Len(t)) : MatchAt(s, t, i, fold)}
    IN IF M = {} THEN -1 ELSE MinOf(M)
LastMatch(s, t, fold) ==
    LET M == {i \in 0..(Len(s) - Len(t)) : MatchAt(s, t, i, fold)}
    IN IF M = {} THEN -1 ELSE MaxOf(M)

(* length of the longest common prefix of a non-empty sequence of texts *)
CommonLen(cs) ==
    LET n == MinOf({Len(cs[i]) : i \in 1..Len(cs)})
    IN MaxOf({k \in 0..n : \A i \in 1..Len(cs) : SubSeq(cs[i], 1, k) = SubSeq(cs[1], 1, k)})

TrimLeft(s) ==
    LET N == {i \in 1..Len(s) : ~IsSpace(s[i])}
    IN IF N = {} THEN <<>> ELSE SubSeq(s, MinOf(N), Len(s))
Trim(s) ==
    LET N == {i \in 1..Len(s) : ~IsSpace(s[i])}
    IN IF N = {} THEN <<>> ELSE SubSeq(s, MinOf(N), MaxOf(N))

(* lines of a file; a last line without newline counts, an empty rest does not *)
RECURSIVE LinesOf(_)
LinesOf(f) ==
    IF f = <<>> THEN <<>>
    ELSE LET N == {i \in 1..Len(f) : f[i] = 10}
         IN IF N = {} THEN <<f>>
            ELSE LET n == MinOf(N) IN <<SubSeq(f, 1, n - 1)>> \o LinesOf(SubSeq(f, n + 1, Len(f)))

RECURSIVE FileOf(_)
FileOf(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<10>> \o FileOf(Tail(ls))

(* a prompt without its colour sequences ESC [ ... m *)
RECURSIVE NoColor(_)
NoColor(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) >= 2 /\ s[1] = 27 /\ s[2] = 91
         THEN LET M == {i \in 3..Len(s) : s[i] = 109}
              IN IF M = {} THEN NoColor(Drop(s, 1))     \* no end: only ESC is dropped
                 ELSE NoColor(Drop(s, MinOf(M)))
         ELSE <<s[1]>> \o NoColor(Tail(s))
=============================================================================
