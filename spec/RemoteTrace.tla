------------------------------ MODULE RemoteTrace ------------------------------
(* Recorded remote sessions against Remote.  Runs, one per line: id, client (or else
   the server) and ev:
     got t, cut             bytes, the end, from the connection
     huge                   a Read of it of more than anybody sends
     sent t, broken         bytes to the connection, a failure of it
   the server:
     hello ok               NewRemoteSvr returned
     reg, told n            FuncOnWidthChanged was called; it tells of the width n
     re t err, know w t     a Read returned; width and terminal after it
     cb id k t, ce id n err Write, FuncMakeRaw, FuncExitRaw
     close                  Close begins
   the client:
     term n, window n       it is a terminal, it has this width
     sb, src t err          a Read of what is typed
     printed t              on the standard output
     mode raw               all that came has had its effect
     end raw                ServeBy returned                                      *)
EXTENDS Remote, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, m
vars == <<r, l, m>>

Apply(e) ==
    LET client == Runs[r].client IN
    CASE e.e = "got" -> Got(m, e.t, client)
      [] e.e = "cut" -> Cut(m)
      [] e.e = "huge" -> Huge(m)
      [] e.e = "sent" -> IF client THEN Typed(m, e.t) ELSE Sent(m, e.t)
      [] e.e = "broken" -> Broke(m)
      [] e.e = "hello" -> Greeted(m, e.ok)
      [] e.e = "reg" -> Registered(m)
      [] e.e = "told" -> Told(m, e.n)
      [] e.e = "re" -> Read(m, e.t, e.err)
      [] e.e = "know" -> CheckTold(GetTTY(GetWidth(m, e.w), e.t))
      [] e.e = "cb" -> CallBegins(m, e.id, e.k, e.t)
      [] e.e = "ce" -> CallEnds(m, e.id, e.n, e.err)
      [] e.e = "close" -> CloseBegins(m)
      [] e.e = "term" -> Terminal(m, e.n)
      [] e.e = "window" -> Window(m, e.n)
      [] e.e = "sb" -> SourceBegins(m)
      [] e.e = "src" -> Source(m, e.t, e.err)
      [] e.e = "printed" -> Printed(m, e.t)
      [] e.e = "mode" -> Mode(m, e.raw)
      [] e.e = "end" -> ClientEnds(m, e.raw)

Init == /\ r \in 1..Len(Runs) /\ l = 0 /\ m = NewRemote
Next == /\ m.err = "" /\ l < Len(Runs[r].ev)
        /\ l' = l + 1 /\ r' = r
        /\ m' = LET x == Apply(Runs[r].ev[l + 1])
                IN IF l + 1 = Len(Runs[r].ev) /\ ~Runs[r].client THEN ServerEnds(x) ELSE x
        /\ m'.err # "" => PrintT(ToJson([mismatch |-> Runs[r].id, step |-> l + 1, what |-> m'.err,
                                        spec |-> [up |-> m'.up, in |-> m'.in, out |-> m'.out, ws |-> m'.ws, ts |-> m'.ts,
                                                  stop |-> m'.stop, cons |-> m'.cons, tot |-> m'.tot, over |-> m'.over,
                                                  loose |-> m'.loose, raw |-> m'.raw, src |-> m'.src]]))
Spec == Init /\ [][Next]_vars
=============================================================================
