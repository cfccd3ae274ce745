---------------------------- MODULE HistFileTrace ----------------------------
(* Runs of the real code with the contents of the history file at every instant
   a process could die, with failing file operations, and restarts from such an
   instant.  The file named by TRACE has one run per line: id  ev, the events
     begin has file limit      an instance is made for this file
     sys has file              the file after (or within) a file operation
     fault op on               the operation was made to fail; on: file, tmp
     opened has file           the instance is ready
     add t                     a line is going to be recorded
     added has file err how ok it has been: by SaveHistory (err: what it returned)
                               or by Readline (ok: it returned the line)
     recall got                the entries, as shown by Ctrl-P, oldest first
     crash has file limit got after   entries and file after a restart from file *)
EXTENDS HistFile, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, l, st
vars == <<r, l, st>>

Of(e) == IF e.has THEN File(e.file) ELSE NoFile

Start0 == [f |-> NoFile, f0 |-> NoFile, limit |-> 0, phase |-> "none", t |-> <<>>, added |-> <<>>,
           open |-> TRUE,      \* opening the file never failed
           part |-> FALSE,     \* it could not be read to the end
           failed |-> FALSE,   \* something failed, at any time
           now |-> FALSE,      \* in this phase
           err |-> ""]

Bad(s, what) == [s EXCEPT !.err = what]

InPhase(s) == CASE s.phase = "open" -> OpenStates(s.f0, s.limit)
                [] s.phase = "add" -> IF s.limit >= 0 THEN AddStates(s.f0, s.t, s.failed) ELSE {s.f0}
                [] OTHER -> {s.f}

RECURSIVE Add(_, _)
Add(h, as) == IF as = <<>> THEN h
              ELSE LET a == Head(as)
                       h2 == Record(h, a.t)
                   IN Add(IF a.how = "enter" THEN Note(h2, <<>>) ELSE h2, Tail(as))
(* what Ctrl-P shows, again and again *)
RECURSIVE Walk(_, _)
Walk(h, seen) == IF ~HasPrev(h) THEN seen
                 ELSE LET p == ToPrev(h) IN Walk(Note(p, Shown(p)), <<Shown(p)>> \o seen)
Recalled(limit, t, added) ==
    LET h == IF limit < 0 THEN NewHistory(limit, "f") ELSE Opened(t, limit).h
    IN Walk(Add(h, added), <<>>)

Step(s, e) ==
    CASE e.e = "begin" ->
            [Start0 EXCEPT !.f = Of(e), !.f0 = Of(e), !.limit = e.limit, !.phase = "open"]
      [] e.e = "fault" ->
            [s EXCEPT !.failed = TRUE, !.now = TRUE,
                      !.part = @ \/ e.op = "read",
                      !.open = @ /\ ~(e.op = "open" /\ e.on = "file" /\ s.phase = "open")]
      [] e.e = "sys" ->
            IF Of(e) \notin InPhase(s) THEN Bad(s, "the history file is neither what it was nor what it should become")
            ELSE [s EXCEPT !.f = Of(e)]
      [] e.e = "opened" ->
            IF Of(e) \notin InPhase(s) THEN Bad(s, "the history file is neither what it was nor what it should become")
            ELSE IF ~s.failed /\ s.limit >= 0 /\ Of(e) # File(Opened(s.f0.t, s.limit).file)
            THEN Bad(s, "the history file was not cut to its newest lines")
            ELSE [s EXCEPT !.f = Of(e), !.phase = "idle", !.now = FALSE]
      [] e.e = "add" -> [s EXCEPT !.phase = "add", !.f0 = s.f, !.t = e.t, !.now = FALSE]
      [] e.e = "added" ->
            LET full == Of(e) \in AddedStates(s.f0, s.t, s.failed)
                s2 == [s EXCEPT !.f = Of(e), !.phase = "idle", !.added = Append(@, [t |-> s.t, how |-> e.how]), !.now = FALSE]
            IN IF Of(e) \notin InPhase(s) THEN Bad(s, "the history file is neither what it was nor with the line added")
               ELSE IF ~e.ok THEN Bad(s, "Readline failed because of the history")
               ELSE IF ~s.open \/ s.limit < 0 THEN s2
               ELSE IF ~full /\ ~s.now THEN Bad(s, "the line was not added to the history file")
               ELSE IF ~full /\ e.how = "save" /\ ~e.err THEN Bad(s, "SaveHistory did not report that the line is not in the file")
               ELSE IF full /\ ~s.now /\ e.err THEN Bad(s, "SaveHistory reported an error that did not happen")
               ELSE s2
      [] e.e = "recall" ->
            LET can == IF ~s.open THEN {Recalled(s.limit, t, s.added) : t \in {<<>>, e.orig}}
                       ELSE IF s.part THEN {Recalled(s.limit, Take(e.orig, n), s.added) : n \in 0..Len(e.orig)}
                       ELSE {Recalled(s.limit, e.orig, s.added)}
            IN IF e.got \notin can THEN Bad(s, "other entries are in memory") ELSE s
      [] e.e = "crash" ->
            LET t == Of(e).t IN
            IF e.got # Recalled(e.limit, t, <<>>) THEN Bad(s, "after a crash other entries are loaded")
            ELSE IF e.limit >= 0 /\ e.after # Opened(t, e.limit).file THEN Bad(s, "after a crash the file is not as it should be")
            ELSE s
      [] OTHER -> Bad(s, "unknown event")

Init == r \in 1..Len(Runs) /\ l = 0 /\ st = Start0
Next == /\ st.err = ""
        /\ l < Len(Runs[r].ev)
        /\ r' = r
        /\ l' = l + 1
        /\ st' = Step(st, Runs[r].ev[l + 1])
        /\ st'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> st'.err,
              spec |-> [phase |-> st.phase, was |-> st.f0, added |-> st.added, limit |-> st.limit]]))
Spec == Init /\ [][Next]_vars
=============================================================================
