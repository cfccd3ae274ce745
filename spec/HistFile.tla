------------------------------ MODULE HistFile -------------------------------
(* What the history file may contain at any instant: while it is opened it is the
   file it was (with its last line ended) or the one cut to the limit, and while
   a line is appended it is the file it was and a part of the line.             *)
EXTENDS History

NoFile == [has |-> FALSE, t |-> <<>>]
File(t) == [has |-> TRUE, t |-> t]
Torn(t) == t # <<>> /\ t[Len(t)] # 10
EndLine(t) == IF Torn(t) THEN Append(t, 10) ELSE t

Opened(t, limit) == OpenHistory(NewHistory(limit, "f"), t)
Loaded(t, limit) == LET its == LoadItems(LinesOf(t), limit) IN [i \in 1..Len(its) |-> its[i].src]
TooLong(t, limit) == Len(LinesOf(t)) > limit

(* the contents f may go through when it is opened *)
OpenStates(f, limit) ==
    IF limit < 0 THEN {f}
    ELSE {f, File(f.t), File(EndLine(f.t)), File(Opened(f.t, limit).file)}

(* what is written for a line; blank: a blank line before it does no harm *)
Written(base, t) == IF Torn(base) THEN <<10>> \o t \o <<10>> ELSE t \o <<10>>
AddStates(f, t, blank) ==
    IF ~f.has THEN {f}
    ELSE {File(f.t \o Take(Written(f.t, t), n)) : n \in 0..Len(Written(f.t, t))}
         \cup IF blank THEN {File(f.t \o Take(<<10>> \o t \o <<10>>, n)) : n \in 0..Len(t) + 2} ELSE {}
AddedStates(f, t, blank) ==
    {File(f.t \o Written(f.t, t))} \cup IF blank THEN {File(f.t \o <<10>> \o t \o <<10>>)} ELSE {}
=============================================================================
