--------------------------------- MODULE TtyMC ---------------------------------
(* All sequences of N calls on a terminal with one of a few modes.  They are printed:
   the harness makes them on a real one.                                          *)
EXTENDS Tty, TLC, Json

CONSTANTS N, KeepQuiet, \* faults: after a password the mode stays
          Twice,        \* Exit goes back again
          Half          \* raw mode keeps ISIG
VARIABLES x, ops, start
vars == <<x, ops, start>>

cc == <<3, 28, 127, 21, 4, 0, 1, 0>>
Modes == << [i |-> {ICRNL, IXON}, o |-> {0, 2}, c |-> {4, 5, 7}, l |-> {ISIG, ICANON, ECHO, 4, 5, IEXTEN}, cc |-> cc],
            [i |-> {}, o |-> {}, c |-> {4, 5}, l |-> {ECHO}, cc |-> [cc EXCEPT ![VMIN] = 0, ![VTIME] = 3]],
            [i |-> {ICRNL}, o |-> {0}, c |-> {4, 5}, l |-> {ICANON, ECHONL}, cc |-> cc] >>

RawOf(m) == IF Half THEN [Raw(m) EXCEPT !.l = @ \cup (m.l \cap {ISIG})] ELSE Raw(m)
Init == \E k \in DOMAIN Modes : x = NewTty(Modes[k]) /\ ops = <<>> /\ start = k
Op(o) == ops' = Append(ops, o)
Next ==
    /\ Len(ops) < N /\ start' = start
    /\ \/ \E k \in DOMAIN Modes : Modes[k] # x.mode /\ x' = SetMode(x, Modes[k]) /\ Op([f |-> "set", k |-> k])
       \/ Len(x.saved) < 2 /\ x' = [DoRaw(x) EXCEPT !.mode = RawOf(x.mode)] /\ Op([f |-> "raw", k |-> 0])
       \/ Len(x.saved) < 2 /\ x' = DoState(x) /\ Op([f |-> "state", k |-> 0])
       \/ \E k \in DOMAIN x.saved : x' = DoRestore(x, k) /\ Op([f |-> "restore", k |-> k])
       \/ x.raw = <<>> /\ x' = [DoEnter(x) EXCEPT !.mode = RawOf(x.mode)] /\ Op([f |-> "enter", k |-> 0])
       \/ x' = (IF Twice THEN [DoExit(x) EXCEPT !.raw = x.raw] ELSE DoExit(x)) /\ Op([f |-> "exit", k |-> 0])
       \/ x' = (IF KeepQuiet THEN SetMode(x, Quiet(x.mode)) ELSE x) /\ Op([f |-> "pass", k |-> 0])
    /\ Len(ops') = N => PrintT(ToJson([start |-> start, ops |-> ops']))
Spec == Init /\ [][Next]_vars

(* what the user types reaches the editor as it is, and is not shown *)
IsRaw(m) == m.l \cap {ECHO, ICANON, ISIG, IEXTEN} = {} /\ m.i \cap {ICRNL, INLCR, IGNCR, IXON, ISTRIP} = {} /\ m.cc[VMIN] = 1
LastF == ops[Len(ops)].f
RawIsRaw == ops # <<>> /\ LastF \in {"raw", "enter"} => IsRaw(x.mode)
(* a mode is one that somebody set, or the raw one of it *)
Origin == \/ \E k \in DOMAIN Modes : x.mode \in {Modes[k], Raw(Modes[k])}
SavedToo == \A k \in DOMAIN x.saved : \E j \in DOMAIN Modes : x.saved[k] \in {Modes[j], Raw(Modes[j])}
(* calls that come in pairs leave everything as it was *)
Pairs == \A k \in 1..Len(ops) - 1 :
    (k = Len(ops) - 1 /\ ops[k].f = "enter" /\ ops[k + 1].f = "exit") => x.raw = <<>>
(* without anything in between that sets the mode, the end is the start *)
RECURSIVE Balanced(_, _)
Balanced(o, d) == IF o = <<>> THEN d = 0
    ELSE CASE o[1].f = "enter" -> Balanced(Tail(o), d + 1)
           [] o[1].f = "exit" -> Balanced(Tail(o), IF d > 0 THEN d - 1 ELSE 0)
           [] o[1].f \in {"pass", "state"} -> Balanced(Tail(o), d)
           [] OTHER -> FALSE
Back == Balanced(ops, 0) => x.mode = Modes[start]
=============================================================================
