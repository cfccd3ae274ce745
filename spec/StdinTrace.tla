------------------------------ MODULE StdinTrace ------------------------------
(* Recorded runs of the real wrappers of the input against Stdin.  Runs, one per
   line: id, fill (a FillableStdin, or else a CancelableStdin) and ev:
     rb id n, re id t err   a Read of n bytes began, returned
     ub, ue t err           a Read of the reader below
     wb t, we t n err       a write of what comes first
     cb, ce                 Close
     spoiled                a buffer changed after its Read had returned           *)
EXTENDS Stdin, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, m, size
vars == <<r, l, m, size>>

Apply(e) ==
    CASE e.e = "rb" -> ReadBegins(m, e.id)
      [] e.e = "re" -> IF Runs[r].fill THEN FillRead(m, e.id, size, e.t, e.err) ELSE CancelRead(m, e.id, e.t, e.err)
      [] e.e = "ub" -> UnderBegins(m)
      [] e.e = "ue" -> UnderEnds(m, e.t, e.err)
      [] e.e = "wb" -> Filled(m, e.t)
      [] e.e = "we" -> FillWritten(m, e.t, e.n, e.err)
      [] e.e = "cb" -> CloseBegins(m)
      [] e.e = "ce" -> CloseEnds(m)
      [] e.e = "spoiled" -> Spoiled(m)

Init == /\ r \in 1..Len(Runs) /\ l = 0 /\ m = NewStdin /\ size = 0
Next == /\ m.err = "" /\ l < Len(Runs[r].ev)
        /\ l' = l + 1 /\ r' = r
        /\ LET e == Runs[r].ev[l + 1] IN
           /\ m' = Apply(e)
           /\ size' = IF e.e = "rb" THEN e.n ELSE size
        /\ m'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> m'.err,
                                        spec |-> [given |-> m'.given, fill |-> m'.fill, seen |-> m'.seen]]))
Spec == Init /\ [][Next]_vars
=============================================================================
