------------------------------ MODULE Decoder -------------------------------
(* From characters to keys.  Keys are code points; Meta keys are negative.     *)
EXTENDS Text

EofKey == -100
NoKey == 0

MetaB == -1   MetaF == -2   MetaD == -3   MetaBackspace == -4   MetaT == -5

CsiKey(typ, attr) ==
    CASE typ = 68 -> 2  [] typ = 67 -> 6  [] typ = 65 -> 16 [] typ = 66 -> 14
      [] typ = 72 -> 1  [] typ = 70 -> 5
      [] typ = 126 -> IF attr = <<51>> THEN 4 ELSE NoKey
      [] OTHER -> NoKey
Ss3Key(typ, attr) ==
    CASE typ = 68 -> 2  [] typ = 67 -> 6  [] typ = 65 -> 16 [] typ = 66 -> 14
      [] typ = 72 -> 1  [] typ = 70 -> 5
      [] OTHER -> NoKey
MetaKey(c) ==
    CASE c = 98 -> MetaB [] c = 102 -> MetaF [] c = 100 -> MetaD
      [] c = 20 -> MetaT [] c = 127 -> MetaBackspace
      [] OTHER -> c

IsParam(c) == c = 59 \/ IsDigit(c)

(* Decode returns the next key and what remains; vim: ESC is a key of its own *)
RECURSIVE Decode(_, _), DecodeEsc(_), DecodeSeq(_, _)
Decode(inp, vim) ==
    IF inp = <<>> THEN [k |-> EofKey, rest |-> <<>>]
    ELSE IF Head(inp) = 0 THEN Decode(Tail(inp), vim)
    ELSE IF Head(inp) = 27 /\ ~vim THEN DecodeEsc(Tail(inp))
    ELSE [k |-> Head(inp), rest |-> Tail(inp)]
DecodeEsc(inp) ==
    IF inp = <<>> THEN [k |-> EofKey, rest |-> <<>>]
    ELSE LET c == Head(inp) IN
         IF c = 91 THEN DecodeSeq(Tail(inp), TRUE)
         ELSE IF c = 79 THEN DecodeSeq(Tail(inp), FALSE)
         ELSE IF c = 27 THEN DecodeEsc(Tail(inp))
         ELSE IF c = 0 THEN Decode(Tail(inp), FALSE)
         ELSE [k |-> MetaKey(c), rest |-> Tail(inp)]
DecodeSeq(inp, csi) ==
    LET N == {i \in 1..Len(inp) : ~IsParam(inp[i])} IN
    IF N = {} THEN [k |-> EofKey, rest |-> <<>>]
    ELSE LET n == MinOf(N)
             attr == SubSeq(inp, 1, n - 1)
             key == IF csi THEN CsiKey(inp[n], attr) ELSE Ss3Key(inp[n], attr)
             rest == SubSeq(inp, n + 1, Len(inp))
         IN IF key = NoKey THEN Decode(rest, FALSE) ELSE [k |-> key, rest |-> rest]
=============================================================================
