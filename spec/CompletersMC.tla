----------------------------- MODULE CompletersMC -----------------------------
(* The completers on every line up to a length, for the trees in the file named by
   MC: what is offered makes sense.                                             *)
EXTENDS Completers, Json, IOUtils

P == JsonDeserialize(IOEnv.MC)

VARIABLES t, line
vars == <<t, line>>

Init == t \in 1..Len(P.trees) /\ line = <<>>
Next == /\ Len(line) < P.maxlen
        /\ t' = t
        /\ \E i \in 1..Len(P.letters) : line' = Append(line, P.letters[i])
Spec == Init /\ [][Next]_vars

Tree == P.trees[t]
Cands(pos) == PrefixDo(Tree, line, pos)

RECURSIVE Static(_)
Static(n) == n.dyn # 2 /\ \A i \in 1..Len(n.children) : Static(n.children[i])

(* taking what is offered makes a complete word which is in the tree *)
Leads == \A pos \in 0..Len(line) : \A i \in 1..Len(Cands(pos)) :
    LET l2 == Take(line, pos) \o Cands(pos)[i] IN
    /\ LastSegment(l2) = <<>>
    /\ Static(Tree) => Walk(Tree, Complete(l2), l2) # NoNode
(* and so does anything that is not offered, never *)
All == \A pos \in 0..Len(line) :
    LET node == Walk(Tree, Complete(Take(line, pos)), line)
        last == LastSegment(Take(line, pos))
    IN \A i \in 1..Len(node.children) : \A n \in Range(Names(node.children[i], line)) :
          Starts(n, last) <=> Drop(n, Len(last)) \o <<Space>> \in Range(Cands(pos)) /\ Starts(n, last)
(* text right of the cursor has no influence *)
LeftOnly == Static(Tree) => \A pos \in 0..Len(line) : Cands(pos) = PrefixDo(Tree, Take(line, pos), pos)
(* spaces before and between words do not matter *)
Spaces == Static(Tree) => PrefixDo(Tree, <<Space>> \o line, Len(line) + 1) = Cands(Len(line))
(* segments put together again are the line *)
RECURSIVE Joined(_)
Joined(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<Space>> \o Joined(Tail(ss))
Segmented == Joined(Segments(line)) = line
=============================================================================
