------------------------------ MODULE LueFiles ------------------------------
(* Files, the ways they are created, opened and removed, and what is seen of them on disk. A path name leads to a file
   (a number; 0: nothing there); a file that is removed while it is open lives on until it is closed. Files in memory
   are under no path name. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Paths == {"p0", "p1", "p2"}
BadPaths == {"nodir/x", "dir"}  \* a directory that does not exist, and a directory
Slots == 0..3
Closed == [ino |-> 0]
Blank(lue, desc) == [groups |-> {}, unis |-> {}, lue |-> lue, mark |-> 0, version |-> TRUE, desc |-> desc]
NotHdf5 == [kind |-> "other"]
Hdf5(c) == [kind |-> "hdf5", c |-> c]

Empty == [dir |-> [p \in Paths |-> 0], ino |-> <<>>, open |-> [s \in Slots |-> Closed], n |-> 1,
          seen |-> [p \in Paths |-> [kind |-> "absent"]]]

OK(st) == [st |-> st, res |-> "ok", ret |-> <<>>]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
IsOpen(st, s) == st.open[s].ino # 0
OpenOf(st, i) == {s \in Slots : st.open[s].ino = i}
Writers(st, i) == {s \in OpenOf(st, i) : st.open[s].rw}
At(st, p) == IF p \in Paths THEN st.dir[p] ELSE 0
SameMem(st, op) == {s \in Slots : IsOpen(st, s) /\ st.open[s].mem /\ st.open[s].path = op.path /\ st.open[s].how = op.how}
Handle(ino, op, rw, mem) == [ino |-> ino, path |-> op.path, how |-> op.how, rw |-> rw, mem |-> mem, lvl |-> op.lvl]
Content(st, s) == st.ino[st.open[s].ino].c

Apply(st, op) ==
  CASE op.a = "Create" ->
         LET i == At(st, op.path) IN
         IF op.path \in BadPaths \/ (i # 0 /\ OpenOf(st, i) # {}) THEN Err(st)
         ELSE LET j == IF i = 0 THEN st.n ELSE i
                  c == Blank(op.lvl = "dm", op.lvl = "dm" /\ op.desc)
              IN OK([st EXCEPT !.n = @ + 1, !.dir[op.path] = j, !.ino = (j :> Hdf5(c)) @@ @,
                               !.open[op.to] = Handle(j, op, TRUE, FALSE)])
    [] op.a = "CreateMem" ->
         IF SameMem(st, op) # {} THEN Err(st)
         ELSE OK([st EXCEPT !.n = @ + 1, !.ino = (st.n :> Hdf5(Blank(op.lvl = "dm", op.lvl = "dm" /\ op.desc))) @@ @,
                            !.open[op.to] = Handle(st.n, op, TRUE, TRUE)])
    [] op.a = "Open" ->
         LET i == At(st, op.path) IN
         IF i = 0 \/ st.ino[i].kind # "hdf5" THEN Err(st)
         ELSE IF op.lvl = "dm" /\ ~st.ino[i].c.lue THEN Err(st)
         ELSE IF op.rw /\ \E s \in OpenOf(st, i) : ~st.open[s].rw THEN Err(st)
         ELSE OK([st EXCEPT !.open[op.to] = Handle(i, op, op.rw, FALSE)])
    [] op.a = "OpenBad" -> Err(st)
    [] op.a = "Add" ->
         LET h == st.open[op.from]
             f == IF op.uni THEN "unis" ELSE "groups"
         IN IF ~h.rw \/ op.name \in st.ino[h.ino].c[f] THEN Err(st)
            ELSE OK([st EXCEPT !.ino[h.ino].c[f] = @ \cup {op.name}])
    [] op.a = "Mark" -> IF ~st.open[op.from].rw THEN Err(st) ELSE OK([st EXCEPT !.ino[st.open[op.from].ino].c.mark = op.mark])
    [] op.a = "Flush" -> OK(st)
    [] op.a = "Close" -> OK([st EXCEPT !.open[op.from] = Closed])
    [] op.a = "Remove" -> IF At(st, op.path) = 0 THEN Err(st) ELSE OK([st EXCEPT !.dir[op.path] = 0])
    [] op.a = "Exists" -> [st |-> st, res |-> "ok", ret |-> [exists |-> At(st, op.path) # 0]]
    \* whether there is a (valid) dataset
    [] op.a = "Valid" -> LET i == At(st, op.path) IN
         [st |-> st, res |-> "ok", ret |-> [valid |-> IF i = 0 THEN "nothing" ELSE IF st.ino[i].kind # "hdf5" THEN "nothing"
                                                     ELSE IF st.ino[i].c.lue THEN "yes" ELSE "no"]]
    [] op.a \in {"Text", "Cut"} ->
         OK([st EXCEPT !.n = @ + 1, !.dir[op.path] = st.n, !.ino = (st.n :> NotHdf5) @@ @])

----------------------------------------------------------------------------
Range(s) == {s[i] : i \in DOMAIN s}
Read(o) == [groups |-> Range(o.groups), unis |-> Range(o.unis), lue |-> o.lue, mark |-> o.mark, version |-> o.version, desc |-> o.desc]
Touches(op, p) == op.a \in {"Create", "Text", "Cut", "Remove"} /\ op.path = p
\* what is on disk under a path name
DiskOK(st, t, op, p, o) ==
  LET i == t.dir[p]
      old == st.seen[p]
      quiet == ~Touches(op, p) /\ i # 0 /\ st.dir[p] = i /\ Writers(st, i) = {} /\ Writers(t, i) = {}
      flushed == op.a = "Flush" /\ t.open[op.from].ino = i /\ ~t.ino[i].c.lue
  IN IF i = 0 THEN o.kind = "absent"
     ELSE /\ o.kind # "absent"
          /\ t.ino[i].kind = "other" => o.kind = "other"
          /\ (t.ino[i].kind = "hdf5" /\ (Writers(t, i) = {} \/ flushed)) => (o.kind = "hdf5" /\ Read(o.content) = t.ino[i].c)
          /\ quiet => o.hash = old.hash
\* what an open handle shows
OpenOK(t, s, open) ==
  LET k == ToString(s) IN
  IF ~IsOpen(t, s) THEN k \notin DOMAIN open
  ELSE /\ k \in DOMAIN open
       /\ LET o == open[k]
              h == t.open[s]
          IN /\ "failed" \notin DOMAIN o
             /\ o.intent = (IF h.rw THEN "rw" ELSE "ro")
             /\ o.path = h.path /\ o.how = h.how
             /\ Read(o.content) = t.ino[h.ino].c
CensusOK(t, c) ==
  /\ c.file = Cardinality({s \in Slots : IsOpen(t, s)})
  /\ (\A s \in Slots : IsOpen(t, s) => t.open[s].lvl # "dm") => \A k \in {"group", "dataset", "attr", "type", "space", "plist"} : c[k] = 0

Start(ev) == Empty
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      t == r.st
      wrong ==
        \* whether removing what is not there is an error is left open
        (IF ev.res # r.res /\ ~(ev.op.a = "Remove" /\ r.res = "err") THEN {"outcome"} ELSE {})
        \cup (IF ev.res = r.res /\ r.ret # <<>> /\ ev.ret # r.ret THEN {"returned"} ELSE {})
        \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE
              {"on disk: " \o p : p \in {q \in Paths : ~DiskOK(st, t, ev.op, q, ev.obs.disk[q])}}
              \cup {"handle: " \o ToString(s) : s \in {x \in Slots : ~OpenOK(t, x, ev.obs.open)}}
              \cup (IF ev.obs.stray # <<>> THEN {"stray files"} ELSE {})
              \cup (IF ~CensusOK(t, ev.obs.census) THEN {"left open"} ELSE {}))
  IN [st |-> IF "obs" \in DOMAIN ev THEN [t EXCEPT !.seen = ev.obs.disk] ELSE t, wrong |-> wrong,
      exp |-> [res |-> r.res, ret |-> r.ret, dir |-> t.dir, open |-> t.open, ino |-> t.ino]]
=============================================================================
