------------------------------ MODULE Completers ------------------------------
(* What a PrefixCompleter and a SegmentCompleter offer.

   A node of the tree is [name, dyn, children]; dyn 0 is a static one, 1 a dynamic
   one that offers its fixed names, 2 one that offers the words of the whole line
   with a w before each.                                                         *)
EXTENDS Text, SequencesExt

Space == 32

(* the stretches between the spaces *)
RECURSIVE Segments(_)
Segments(s) ==
    LET at == {i \in 1..Len(s) : s[i] = Space} IN
    IF at = {} THEN <<s>>
    ELSE LET k == MinOf(at) IN <<SubSeq(s, 1, k - 1)>> \o Segments(SubSeq(s, k + 1, Len(s)))

Words(s) == SelectSeq(Segments(s), LAMBDA w : w # <<>>)

Once(ws) == SelectSeq([i \in 1..Len(ws) |-> [w |-> ws[i], first |-> \A j \in 1..(i - 1) : ws[j] # ws[i]]],
                      LAMBDA x : x.first)

Names(node, line) ==
    CASE node.dyn = 0 -> <<node.name>>
      [] node.dyn = 1 -> node.names
      [] OTHER -> LET o == Once(Words(line)) IN [i \in 1..Len(o) |-> <<119>> \o o[i].w]

Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

NoNode == [name |-> <<>>, dyn |-> 0, names |-> <<>>, children |-> <<>>]

(* along the words that are complete *)
RECURSIVE Walk(_, _, _)
Walk(node, ws, line) ==
    IF ws = <<>> THEN node
    ELSE LET N == {i \in 1..Len(node.children) : Contains(Names(node.children[i], line), Head(ws))}
         IN IF N = {} THEN NoNode ELSE Walk(node.children[MinOf(N)], Tail(ws), line)

(* every name is followed by a space *)
Offered(node, last, line) ==
    LET all == FlattenSeq([i \in 1..Len(node.children) |-> Names(node.children[i], line)])
        fit == SelectSeq(all, LAMBDA n : Starts(n \o <<Space>>, last))
    IN [i \in 1..Len(fit) |-> Drop(fit[i] \o <<Space>>, Len(last))]

LastSegment(left) == LET s == Segments(left) IN s[Len(s)]
Complete(left) == LET s == Segments(left) IN SelectSeq(SubSeq(s, 1, Len(s) - 1), LAMBDA w : w # <<>>)

PrefixDo(root, line, pos) ==
    LET left == Take(line, pos) IN Offered(Walk(root, Complete(left), line), LastSegment(left), line)

(* the tree as text: a row for each node that has a name of its own, deeper ones
   further to the right *)
Branch(level) == IF level = 0 THEN <<>> ELSE <<9500>> \o [i \in 1..(4 * level - 2) |-> 9472] \o <<Space>>
RECURSIVE Shown(_, _, _)
Shown(node, before, level) ==
    LET named == node.dyn = 0 /\ node.name # <<>>
        row == IF named THEN before \o Branch(level) \o node.name \o <<Space, 10>> ELSE <<>>
    IN row \o FlattenSeq([i \in 1..Len(node.children) |-> Shown(node.children[i], before, IF named THEN level + 1 ELSE level)])

(* with other children for the node at a path *)
RECURSIVE WithChildren(_, _, _)
WithChildren(node, path, children) ==
    IF path = <<>> THEN [node EXCEPT !.children = children]
    ELSE [node EXCEPT !.children[Head(path) + 1] = WithChildren(@, Tail(path), children)]

(* cands: what the program's function returned for the segments *)
SegmentDo(cands, line, pos) ==
    LET last == LastSegment(Take(line, pos))
        fit == SelectSeq(cands, LAMBDA c : Starts(c, last))
    IN [i \in 1..Len(fit) |-> Drop(fit[i], Len(last)) \o <<Space>>]
=============================================================================
