----------------------------- MODULE HistFileMC ------------------------------
(* How the implementation goes about it, one file operation at a time, with a
   crash at any instant and any operation failing (once each), followed by a
   restart: the file is always one of those HistFile allows, and no line whose
   writing was reported successful is lost.  Contents are written one character
   at a time, so an instant is any a process can die at.                         *)
EXTENDS HistFile, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.MC)

VARIABLES ino,      \* inode -> content
          name,     \* inode of the history file, 0: there is none
          tmp,      \* of the temporary file
          fd,       \* of the open file
          pc, todo, \* what comes next, and what is still to write
          torn, f0, \* the file when the phase began
          cur,      \* the line being added
          mem,      \* entries in memory
          known,    \* lines that are recorded for good
          adds, crashes, fails
vars == <<ino, name, tmp, fd, pc, todo, torn, f0, cur, mem, known, adds, crashes, fails>>

L(i) == <<96 + i>>
Content(n, blank, end) ==
    LET t == FileOf([i \in 1..n |-> L(i)])
        b == IF blank THEN <<10>> \o t ELSE t
    IN IF end \/ b = <<>> \/ n = 0 THEN b ELSE Take(b, Len(b) - 1)

Now == IF name = 0 THEN NoFile ELSE File(ino[name])
NonBlank(t) == SelectSeq([i \in 1..Len(LinesOf(t)) |-> Trim(LinesOf(t)[i])], LAMBDA x : x # <<>>)

Init == \E n \in 0..P.lines, blank \in BOOLEAN, end \in BOOLEAN, has \in BOOLEAN :
          LET c == IF has THEN Content(n, blank, end) ELSE <<>> IN
          /\ ino = <<c, <<>>, <<>>, <<>>>>
          /\ name = (IF has THEN 1 ELSE 0)
          /\ tmp = 0 /\ fd = 0 /\ pc = "start" /\ todo = <<>> /\ torn = FALSE /\ cur = <<>>
          /\ f0 = (IF has THEN File(c) ELSE NoFile)
          /\ mem = <<>> /\ known = NonBlank(c) /\ adds = 0 /\ crashes = 0 /\ fails = 0

Same(vs) == UNCHANGED vs
Free == CHOOSE i \in 1..4 : i # name /\ i # tmp /\ i # fd

Start == /\ pc = "start"
         /\ f0' = Now
         /\ \/ /\ name' = (IF name = 0 THEN Free ELSE name)
               /\ ino' = (IF name = 0 THEN [ino EXCEPT ![Free] = <<>>] ELSE ino)
               /\ fd' = name' /\ pc' = "read" /\ Same(fails)
            \/ /\ fails < P.fails /\ fails' = fails + 1
               /\ fd' = 0 /\ pc' = "idle" /\ Same(<<name, ino>>)
         /\ torn' = FALSE /\ mem' = <<>>
         /\ Same(<<tmp, todo, cur, known, adds, crashes>>)

Read == /\ pc = "read"
        /\ \/ /\ mem' = Loaded(ino[fd], P.limit)
              /\ pc' = "newline" /\ Same(<<fails, torn>>)
           \/ /\ fails < P.fails /\ fails' = fails + 1
              /\ \E n \in 0..Len(ino[fd]) : mem' = Loaded(Take(ino[fd], n), P.limit)
              /\ torn' = TRUE /\ pc' = "idle"
        /\ Same(<<ino, name, tmp, fd, todo, f0, cur, known, adds, crashes>>)

Newline == /\ pc = "newline"
           /\ \/ /\ ino' = [ino EXCEPT ![fd] = EndLine(@)] /\ Same(<<fails, torn>>)
              \/ /\ fails < P.fails /\ fails' = fails + 1 /\ Torn(ino[fd])
                 /\ torn' = TRUE /\ Same(ino)
           /\ pc' = IF TooLong(ino[fd], P.limit) THEN "tmp" ELSE "idle"
           /\ Same(<<name, tmp, fd, todo, f0, cur, mem, known, adds, crashes>>)

Tmp == /\ pc = "tmp"
       /\ \/ /\ tmp' = (IF tmp = 0 THEN Free ELSE tmp)
             /\ ino' = [ino EXCEPT ![tmp'] = <<>>]
             /\ todo' = FileOf(mem) /\ pc' = "cut" /\ Same(fails)
          \/ /\ fails < P.fails /\ fails' = fails + 1
             /\ pc' = "idle" /\ Same(<<tmp, ino, todo>>)
       /\ Same(<<name, fd, torn, f0, cur, mem, known, adds, crashes>>)

CutWrite == /\ pc = "cut"
            /\ \/ /\ todo # <<>>
                  /\ ino' = [ino EXCEPT ![tmp] = Append(@, Head(todo))]
                  /\ todo' = Tail(todo) /\ Same(<<pc, fails, tmp>>)
               \/ /\ todo # <<>> /\ fails < P.fails /\ fails' = fails + 1
                  /\ tmp' = 0 /\ pc' = "idle" /\ todo' = <<>> /\ Same(ino)
               \/ /\ todo = <<>> /\ pc' = "rename" /\ Same(<<ino, todo, fails, tmp>>)
            /\ Same(<<name, fd, torn, f0, cur, mem, known, adds, crashes>>)

Rename == /\ pc = "rename"
          /\ \/ /\ name' = tmp /\ tmp' = 0 /\ fd' = tmp /\ torn' = FALSE /\ Same(fails)
             \/ /\ fails < P.fails /\ fails' = fails + 1 /\ Same(<<name, tmp, fd, torn>>)
          /\ pc' = "idle"
          /\ Same(<<ino, todo, f0, cur, mem, known, adds, crashes>>)

NewLine(i) == <<65 + i, 65 + i>>
Add == /\ pc = "idle" /\ adds < P.adds
       /\ adds' = adds + 1
       /\ cur' = NewLine(adds)
       /\ mem' = LET m == Append(mem, cur') IN Drop(m, Max2(0, Len(m) - P.limit))
       /\ f0' = Now
       /\ IF fd = 0 THEN pc' = "idle" /\ Same(todo)
          ELSE pc' = "append" /\ todo' = (IF torn THEN <<10>> ELSE <<>>) \o cur' \o <<10>>
       /\ Same(<<ino, name, tmp, fd, torn, known, crashes, fails>>)

AppendChar ==
       /\ pc = "append"
       /\ \/ /\ todo # <<>>
             /\ ino' = [ino EXCEPT ![fd] = Append(@, Head(todo))]
             /\ torn' = (Head(todo) # 10)
             /\ todo' = Tail(todo) /\ Same(<<pc, fails, known>>)
          \/ /\ todo # <<>> /\ fails < P.fails /\ fails' = fails + 1
             /\ todo' = <<>> /\ pc' = "idle" /\ Same(<<ino, known, torn>>)
          \/ /\ todo = <<>> /\ pc' = "idle" /\ known' = Append(known, cur) /\ Same(<<ino, todo, fails, torn>>)
       /\ Same(<<name, tmp, fd, f0, cur, mem, adds, crashes>>)

Crash == /\ crashes < P.crashes /\ crashes' = crashes + 1
         /\ pc' = "start" /\ fd' = 0 /\ todo' = <<>> /\ mem' = <<>> /\ torn' = FALSE
         /\ Same(<<ino, name, tmp, f0, cur, known, adds, fails>>)

Next == Start \/ Read \/ Newline \/ Tmp \/ CutWrite \/ Rename \/ Add \/ AppendChar \/ Crash
Spec == Init /\ [][Next]_vars

Whole == CASE pc \in {"read", "newline", "tmp", "cut", "rename"} -> Now \in OpenStates(f0, P.limit)
           [] pc = "append" -> Now \in AddStates(f0, cur, TRUE)
           [] OTHER -> TRUE

(* a line that was reported as written is in the file unless limit newer lines are *)
Kept == LET all == NonBlank(Now.t)
            k == SelectSeq(all, LAMBDA x : x \in {known[i] : i \in 1..Len(known)})
            whole == SelectSeq(known, LAMBDA x : x # cur)
            kk == SelectSeq(k, LAMBDA x : x # cur)
        IN pc # "append" =>
           /\ Len(k) <= Len(known) /\ k = Drop(known, Len(known) - Len(k))
           /\ Len(k) >= Min2(P.limit - (Len(all) - Len(k)), Len(known))
(* what is in memory is what the file has, if nothing failed *)
Agree == pc = "idle" /\ fails = 0 => mem = Loaded(Now.t, P.limit)
=============================================================================
