-------------------------------- MODULE StdinMC --------------------------------
(* The goroutines of a CancelableStdin: its own, which reads for the callers, those
   that call Read, and those that call Close; the reader below answers at some
   time or never.  Every interleaving is checked against the monitors of Stdin,
   and that Reads return once there was a Close.                              *)
EXTENDS Stdin, TLC

CONSTANTS Readers, MaxReads, MaxGiven, Closers,
          NoStop,       \* faults: a Read that waits for its answer does not look for Close
          Share         \* the reader below gets the buffer of the caller

VARIABLES ipc, ires,                \* the goroutine
          rpc, mutex, count,        \* the readers
          cpc, stop, flag,          \* Close
          below, n, m
vars == <<ipc, ires, rpc, mutex, count, cpc, stop, flag, below, n, m>>

None == [t |-> <<>>, err |-> "none"]
Cut == [t |-> <<>>, err |-> "EOF"]
Init ==
    /\ ipc = "idle" /\ ires = None
    /\ rpc = [i \in Readers |-> "idle"] /\ mutex = 0 /\ count = [i \in Readers |-> 0]
    /\ cpc = [c \in Closers |-> "idle"] /\ stop = FALSE /\ flag = FALSE
    /\ below = "idle" /\ n = 0 /\ m = NewStdin

Ret(i, x) == /\ rpc' = [rpc EXCEPT ![i] = "idle"] /\ mutex' = 0
             /\ m' = IF Share /\ below = "pending" THEN Spoiled(m) ELSE CancelRead(m, i, x.t, x.err)
R0 == UNCHANGED <<cpc, stop, flag, below, n>>
RBegin(i) == /\ rpc[i] = "idle" /\ count[i] < MaxReads
             /\ count' = [count EXCEPT ![i] = @ + 1]
             /\ rpc' = [rpc EXCEPT ![i] = "lock"] /\ m' = ReadBegins(m, i)
             /\ UNCHANGED <<ipc, ires, mutex>> /\ R0
RLock(i) == /\ rpc[i] = "lock" /\ mutex = 0 /\ mutex' = i /\ rpc' = [rpc EXCEPT ![i] = "check"]
            /\ UNCHANGED <<ipc, ires, count, m>> /\ R0
RCheck(i) == /\ rpc[i] = "check"
             /\ IF flag THEN Ret(i, Cut) ELSE rpc' = [rpc EXCEPT ![i] = "ask"] /\ UNCHANGED <<mutex, m>>
             /\ UNCHANGED <<ipc, ires, count>> /\ R0
RAsk(i) == /\ rpc[i] = "ask" /\ ipc = "idle"
           /\ rpc' = [rpc EXCEPT ![i] = "wait"] /\ ipc' = "read"
           /\ UNCHANGED <<ires, mutex, count, m>> /\ R0
RGet(i) == /\ rpc[i] = "wait" /\ ipc = "answer" /\ ipc' = "idle" /\ Ret(i, ires)
           /\ UNCHANGED <<ires, count>> /\ R0
RStop(i) == /\ rpc[i] \in (IF NoStop THEN {"ask"} ELSE {"ask", "wait"}) /\ stop /\ Ret(i, Cut)
            /\ UNCHANGED <<ipc, ires, count>> /\ R0
R(i) == RLock(i) \/ RCheck(i) \/ RAsk(i) \/ RGet(i) \/ RStop(i)

I0 == UNCHANGED <<rpc, mutex, count, cpc, stop, flag>>
IRead == /\ ipc = "read" /\ ipc' = "below" /\ below' = "pending" /\ m' = UnderBegins(m)
         /\ UNCHANGED <<ires, n>> /\ I0
IStop == /\ ipc \in {"idle", "answer"} /\ stop /\ ipc' = "over" /\ UNCHANGED <<ires, below, n, m>> /\ I0
(* the reader below answers: data or an error *)
Answer == /\ below = "pending" /\ n < MaxGiven
          /\ n' = n + 1 /\ below' = "idle" /\ ipc' = "answer"
          /\ \E x \in {[t |-> <<n>>, err |-> ""], [t |-> <<>>, err |-> "EOF"], [t |-> <<n>>, err |-> "E"]} :
                ires' = x /\ m' = UnderEnds(m, x.t, x.err)
          /\ I0

C0 == UNCHANGED <<ipc, ires, rpc, mutex, count, below, n>>
CBegin(c) == /\ cpc[c] = "idle" /\ cpc' = [cpc EXCEPT ![c] = "swap"] /\ m' = CloseBegins(m)
             /\ UNCHANGED <<stop, flag>> /\ C0
CSwap(c) == /\ cpc[c] = "swap" /\ cpc' = [cpc EXCEPT ![c] = IF flag THEN "end" ELSE "stop"] /\ flag' = TRUE
            /\ UNCHANGED <<stop, m>> /\ C0
CStop(c) == /\ cpc[c] = "stop" /\ stop' = TRUE /\ cpc' = [cpc EXCEPT ![c] = "end"] /\ UNCHANGED <<flag, m>> /\ C0
CEnd(c) == /\ cpc[c] = "end" /\ cpc' = [cpc EXCEPT ![c] = "over"] /\ m' = CloseEnds(m) /\ UNCHANGED <<stop, flag>> /\ C0
C(c) == CSwap(c) \/ CStop(c) \/ CEnd(c)

Next == \/ \E i \in Readers : RBegin(i) \/ R(i)
        \/ IRead \/ IStop \/ Answer
        \/ \E c \in Closers : CBegin(c) \/ C(c)
Fair == /\ Init /\ [][Next]_vars
        /\ \A i \in Readers : SF_vars(R(i))
        /\ WF_vars(IRead \/ IStop) /\ \A c \in Closers : WF_vars(C(c))

Right == m.err = ""
Released == \A i \in Readers : (rpc[i] # "idle" /\ stop) ~> (rpc[i] = "idle")
CloseReturns == \A c \in Closers : (cpc[c] = "swap") ~> (cpc[c] = "over")
Leaves == stop ~> (ipc = "over" \/ below = "pending")
=============================================================================
