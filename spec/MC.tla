--------------------------------- MODULE MC ----------------------------------
(* All behaviours of the machine with a few keys, short lines and a small
   history.  The profile (configurations, keys, lines typed before, bounds) is
   read from the file named by MC; every transition is printed as the keys of a
   shortest path to it, for the real editor to be walked along.                 *)
EXTENDS Machine, Json, IOUtils

P == JsonDeserialize(IOEnv.MC)

VARIABLES st,      \* the machine
          lines,   \* lines ended
          path,    \* the keys that led here
          out      \* how the last key ended the line, if it did
vars == <<st, lines, path, out>>

RECURSIVE RunAll(_)
RunAll(s) == IF s.inp = <<>> THEN s ELSE RunAll([StepKey(s) EXCEPT !.res = NoRes])

Start == RunAll(InitState(P.cfgs, 1, P.pre, P.disk))

RECURSIVE Feed(_)
Feed(s) == IF s.inp = <<>> \/ s.res.k # "none" THEN s ELSE Feed(StepKey(s))
Type(s, key) == Feed([s EXCEPT !.inp = key])

Init == st = Start /\ lines = 0 /\ path = <<>> /\ out = NoRes

(* entries being changed *)
Dirty(it, ver) == it.ver = ver /\ it.tmp # it.src
Within(s) == /\ P.letters = <<>> \/ \A i \in 1..Len(s.buf) : \E j \in 1..Len(P.letters) : s.buf[i] = P.letters[j]
             /\ Len(s.buf) <= P.maxlen
             /\ Len(s.kill) <= P.maxkill
             /\ Cardinality({i \in 1..Len(s.h.items) - 1 : Dirty(s.h.items[i], s.h.ver)}) <= P.dirty
             /\ Len(s.s.data) <= P.maxdata
             /\ \A i \in 1..Len(s.h.items) : Len(s.h.items[i].src) <= P.maxlen + 3

(* only whether a scratch copy still counts matters *)
Aged(it, ver) == IF it.ver = ver THEN [it EXCEPT !.ver = 0] ELSE [it EXCEPT !.ver = -1, !.tmp = <<>>]

Next == \E k \in 1..Len(P.keys) :
          LET s == Type(st, P.keys[k]) IN
          /\ Within(s)
          /\ lines < P.lines
          /\ Len(path) < P.depth
          /\ st' = [s EXCEPT !.res = NoRes, !.inp = <<>>, !.h.ver = 0,
                             !.h.det = Aged(@, s.h.ver),
                             !.h.items = [i \in 1..Len(s.h.items) |-> Aged(s.h.items[i], s.h.ver)]]
          /\ lines' = IF s.res.k = "none" THEN lines ELSE lines + 1
          /\ path' = Append(path, k)
          /\ out' = s.res
          /\ (P.print => PrintT(ToJson(path')))
Spec == Init /\ [][Next]_vars
View == <<st, lines>>

Typed == P.keys[path'[Len(path')]]

-----------------------------------------------------------------------------
(* state properties *)

Sound == StateOK(st)

(* C05, C23: whatever the mode, Enter ends the line, after at most one more *)
NeverStuck == LET a == Type(st, <<13>>) IN a.res.k = "line" \/ Type(a, <<13>>).res.k = "line"

Plain(s) == ~s.s.on /\ ~s.c.on /\ ~s.c.sel /\ (VimOn(s) => s.ins)
NoFilter == Cfg(st).filt = <<>>

(* C06: up and down again changes nothing but the cursor *)
UpDown == (Plain(st) /\ NoFilter /\ HasPrev(st.h)) => Type(Type(st, <<16>>), <<14>>).buf = st.buf
DownUp == (Plain(st) /\ NoFilter /\ HasNext(st.h)) => Type(Type(st, <<14>>), <<16>>).buf = st.buf

(* C10: cancelling a search brings back the line; what is found contains the text *)
Cancelled == (st.s.on /\ NoFilter) => \A k \in (IF VimOn(st) /\ ~st.ins THEN {<<3>>} ELSE {<<7>>, <<3>>}) :
    LET a == Type(st, k) IN a.res.k = "none" /\ a.buf = st.s.org /\ ~a.s.on /\ a.h.cur = st.s.src
Found == (st.s.on /\ st.s.data # <<>> /\ st.buf # st.s.org) =>
    \E i \in 0..Len(st.buf) : MatchAt(st.buf, st.s.data, i, TRUE)  \/ st.h.cur # st.s.src

(* C11: nothing is inserted until a candidate is taken *)
Listed == st.c.sel => Type(st, <<7>>).buf = st.buf /\ Type(st, <<3>>).buf = st.buf
Taken == (st.c.sel /\ NoFilter) =>
    LET a == Type(st, <<13>>) IN
    a.res.k = "none" /\ a.buf = Ins(st.buf, st.pos, st.c.cands[st.c.ch + 1]) /\ ~a.c.on

(* C02: what was killed comes back *)
KillYank == (Plain(st) /\ NoFilter) => \A k \in {<<11>>, <<21>>, <<23>>} :
    LET a == Type(st, k) b == Type(a, <<25>>) IN
    (a.buf # st.buf) => b.buf = st.buf

-----------------------------------------------------------------------------
(* properties of steps *)

IsCut(b, a, cut) == \E i \in 0..Len(b) : \E j \in i..Len(b) : a = Cut(b, i, j) /\ cut = Span(b, i, j)
KillKeys == {<<11>>, <<21>>, <<23>>, <<27, 127>>, <<27, 100>>, <<4>>}
VimKill == {<<120>>, <<100, 100>>, <<100, 119>>, <<100, 108>>, <<115>>, <<83>>, <<99, 99>>, <<99, 119>>, <<99, 108>>}
MoveKeys == {<<1>>, <<2>>, <<5>>, <<6>>, <<27, 98>>, <<27, 102>>}

(* C01 *)
MovesOnly == [][(Plain(st) /\ NoFilter /\ ~VimOn(st) /\ Typed \in MoveKeys) => st'.buf = st.buf /\ st'.kill = st.kill]_vars
(* C02 *)
KillsOnly == [][(Plain(st) /\ NoFilter /\ ~VimOn(st) /\ Typed \in KillKeys /\ out'.k = "none") =>
                   \/ st'.buf = st.buf /\ st'.kill \in {st.kill, <<>>}
                   \/ IsCut(st.buf, st'.buf, st'.kill)]_vars
KeepsKill == [][(NoFilter /\ Typed \notin KillKeys /\ ~(VimOn(st) /\ Typed \in VimKill)) => st'.kill = st.kill]_vars
(* C03 *)
Submits == [][(Plain(st) /\ NoFilter /\ Typed \in {<<13>>, <<10>>}) => out' = [k |-> "line", t |-> st.buf]]_vars
(* C06, C07: entries never change; only a submitted line is added, only the oldest are dropped *)
Entries(s) == [i \in 1..Len(s.h.items) |-> s.h.items[i].src]
IsSuffixOf(x, y) == Len(x) <= Len(y) /\ x = SubSeq(y, Len(y) - Len(x) + 1, Len(y))
Old(s) == IF Entries(s) = <<>> THEN <<>> ELSE SubSeq(Entries(s), 1, Len(Entries(s)) - 1)
Recorded == [][\/ IsSuffixOf(Old(st'), Old(st))
               \/ /\ out'.k = "line" /\ out'.t # <<>>
                  /\ IsSuffixOf(Old(st'), Append(Old(st), out'.t))]_vars
Limited == st.h.limit >= 0 => Len(Old(st)) <= Max2(st.h.limit, 0)
=============================================================================
