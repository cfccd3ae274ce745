--------------------------- MODULE CompletersTrace ---------------------------
(* Answers of the real completers.  The file named by TRACE has one run per line:
     id tree  ev, the events
       prefix line pos out off           what a PrefixCompleter answered
       tree line out                     what Tree wrote, with line before each row
       set path children                 SetChildren on the node at a path
       seg line pos segs n cands out off what a SegmentCompleter was asked (segs,
                                         n), what the program said, what it answered *)
EXTENDS Completers, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, l, tree, err
vars == <<r, l, tree, err>>

Want(t, e) == CASE e.e = "prefix" -> PrefixDo(t, e.line, e.pos)
                [] e.e = "seg" -> SegmentDo(e.cands, e.line, e.pos)
                [] e.e = "tree" -> Shown(t, e.line, 0)
                [] e.e = "set" -> <<>>

Verdict(t, e) ==
    IF e.e = "set" THEN ""
    ELSE IF e.e = "tree" THEN IF e.out = Want(t, e) THEN "" ELSE "another tree is shown"
    ELSE
    LET last == Len(LastSegment(Take(e.line, e.pos)))
        want == Want(t, e)
    IN IF e.e = "seg" /\ (e.segs # Segments(Take(e.line, e.pos)) \/ e.n # last) THEN "it was asked for other segments"
       ELSE IF e.out # want THEN "other candidates are offered"
       ELSE IF want # <<>> /\ e.off # last THEN "another length is given"
       ELSE ""

Init == r \in 1..Len(Runs) /\ l = 0 /\ err = "" /\ tree = Runs[r].tree
Next == LET e == Runs[r].ev[l + 1] IN
        /\ err = ""
        /\ l < Len(Runs[r].ev)
        /\ r' = r
        /\ l' = l + 1
        /\ tree' = IF e.e = "set" THEN WithChildren(tree, e.path, e.children) ELSE tree
        /\ err' = Verdict(tree, e)
        /\ err' # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> err', spec |-> Want(tree, e)]))
Spec == Init /\ [][Next]_vars
=============================================================================
