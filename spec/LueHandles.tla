----------------------------- MODULE LueHandles -----------------------------
(* Handles to the objects in two equal files, a and b:
     /  group   /g  group   /g/s  group   /d  dataset   /g/d  dataset
     /l  hard link to /g   /t  soft link to /g/s   /g/m  hard link to /d    all with an attribute x
   Opening something yields a handle with a token of its own; what is copied from it shares the token. A token is gone
   when the last handle with it is gone. Every handle is to an object reached through one opening of the file (fs); that
   opening has a token too (which is held by file handles only). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slots == 0..5
None == [k |-> "none"]
Empty == [slot |-> [i \in Slots |-> None], vec |-> <<>>, n |-> 1]

IsGroup(h) == h.k \in {"file", "group"}
Live(h) == h.k # "none" /\ ~h.moved

Edges(node) ==
  CASE node = "/" -> [g |-> "/g", l |-> "/g", t |-> "/g/s", d |-> "/d"]
    [] node = "/g" -> [s |-> "/g/s", d |-> "/g/d", m |-> "/d"]
    [] OTHER -> <<>>
KindOf(node) == IF node \in {"/", "/g", "/g/s"} THEN "group" ELSE IF node \in {"/d", "/g/d"} THEN "dataset" ELSE "none"
\* "" if there is nothing
Child(node, name) == IF name \in DOMAIN Edges(node) THEN Edges(node)[name] ELSE ""
RECURSIVE Resolve(_, _)
Resolve(node, path) == IF path = <<>> THEN node
                       ELSE IF KindOf(node) # "group" THEN "" ELSE Resolve(Child(node, Head(path)), Tail(path))
\* the paths that histories use: as texts and as sequences of names. A leading / starts at the root
Paths == << [t |-> "g", p |-> <<"g">>, abs |-> FALSE], [t |-> "l", p |-> <<"l">>, abs |-> FALSE],
            [t |-> "t", p |-> <<"t">>, abs |-> FALSE], [t |-> "d", p |-> <<"d">>, abs |-> FALSE],
            [t |-> "s", p |-> <<"s">>, abs |-> FALSE], [t |-> "m", p |-> <<"m">>, abs |-> FALSE],
            [t |-> "g/s", p |-> <<"g", "s">>, abs |-> FALSE], [t |-> "l/s", p |-> <<"l", "s">>, abs |-> FALSE],
            [t |-> "l/d", p |-> <<"l", "d">>, abs |-> FALSE], [t |-> "g/m", p |-> <<"g", "m">>, abs |-> FALSE],
            [t |-> "/", p |-> <<>>, abs |-> TRUE], [t |-> "/g", p |-> <<"g">>, abs |-> TRUE],
            [t |-> "/g/s", p |-> <<"g", "s">>, abs |-> TRUE], [t |-> "/d", p |-> <<"d">>, abs |-> TRUE],
            [t |-> "/t", p |-> <<"t">>, abs |-> TRUE], [t |-> "nix", p |-> <<"nix">>, abs |-> FALSE],
            [t |-> "g/nix", p |-> <<"g", "nix">>, abs |-> FALSE] >>
PathOf(t) == CHOOSE i \in DOMAIN Paths : Paths[i].t = t
Lookup(h, t) == LET p == Paths[PathOf(t)] IN Resolve(IF p.abs THEN "/" ELSE h.node, p.p)
ParentOf(node) == CASE node = "/g/s" -> "/g" [] OTHER -> "/"

Handle(k, file, node, tok, fs, soft) ==
  [k |-> k, file |-> file, node |-> node, tok |-> tok, fs |-> fs, moved |-> FALSE, soft |-> soft]
Put(st, i, h) == [st EXCEPT !.slot[i] = h]
Fresh(st, i, h) == [st EXCEPT !.slot[i] = h, !.n = @ + 1]
OK(st) == [st |-> st, res |-> "ok"]
Err(st) == [st |-> st, res |-> "err"]
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))

Apply(st, op) ==
  LET from == IF "from" \in DOMAIN op THEN st.slot[op.from] ELSE None
      n == st.n
  IN CASE op.a = "File" -> IF op.file \in {"a", "b"} THEN OK(Fresh(st, op.to, Handle("file", op.file, "/", n, n, FALSE))) ELSE Err(st)
       [] op.a = "Group" -> LET x == Lookup(from, op.path) IN
            IF KindOf(x) = "group" THEN OK(Fresh(st, op.to, Handle("group", from.file, x, n, from.fs, op.path \in {"t", "/t"} \/ from.soft)))
            ELSE Err(st)
       [] op.a = "Dataset" -> LET x == Lookup(from, op.path) IN
            IF KindOf(x) = "dataset" THEN OK(Fresh(st, op.to, Handle("dataset", from.file, x, n, from.fs, FALSE))) ELSE Err(st)
       [] op.a = "Parent" -> OK(Fresh(st, op.to, Handle("group", from.file, ParentOf(from.node), n, from.fs, FALSE)))
       [] op.a = "Attr" -> IF op.name = "x" THEN OK(Fresh(st, op.to, Handle("attr", from.file, from.node, n, from.fs, FALSE))) ELSE Err(st)
       [] op.a = "FileId" -> OK(Put(st, op.to, Handle("ident", from.file, "/", from.fs, from.fs, FALSE)))
       [] op.a = "AsFile" -> OK(Put(st, op.to, Handle("file", from.file, "/", from.fs, from.fs, FALSE)))
       [] op.a \in {"Copy", "Assign"} -> OK(Put(st, op.to, from))
       [] op.a \in {"Move", "MoveAssign"} -> OK([st EXCEPT !.slot[op.to] = from, !.slot[op.from].moved = TRUE])
       [] op.a = "Swap" -> OK([st EXCEPT !.slot[op.to] = from, !.slot[op.from] = st.slot[op.to]])
       [] op.a = "Destroy" -> OK(Put(st, op.to, None))
       [] op.a = "Push" -> OK([st EXCEPT !.vec = Append(@, from)])
       [] op.a = "Insert" -> OK([st EXCEPT !.vec = InsertAt(@, op.at + 1, from)])
       [] op.a = "Erase" -> OK([st EXCEPT !.vec = Remove(@, op.at + 1)])
       [] op.a = "Take" -> OK(Put(st, op.to, st.vec[op.at + 1]))
       [] op.a \in {"Dup", "Use"} -> OK(st)
       [] op.a = "Clear" -> OK([st EXCEPT !.vec = <<>>])

----------------------------------------------------------------------------
(* What is observed *)
Names == [i \in Slots |-> ToString(i)]
Held(st) == {<<ToString(i), st.slot[i]>> : i \in {j \in Slots : Live(st.slot[j])}}
            \cup {<<"v" \o ToString(i - 1), st.vec[i]>> : i \in {j \in DOMAIN st.vec : Live(st.vec[j])}}
Handles(st) == {x[2] : x \in Held(st)}
Usable(st) == {x[1] : x \in Held(st)}
SameObject(g, h) == g.file = h.file /\ g.node = h.node
Equal(st) == {<<x[1], y[1]>> : x \in Held(st), y \in Held(st)}
EqualPairs(st) == {<<x, y>> \in Held(st) \X Held(st) : x[1] # y[1] /\ x[2].k # "attr" /\ y[2].k # "attr" /\ SameObject(x[2], y[2])}
Open(st) ==
  [file |-> Cardinality({h.fs : h \in {g \in Handles(st) : g.k \in {"file", "ident"}}}),
   group |-> Cardinality({h.tok : h \in {g \in Handles(st) : g.k = "group"}}),
   dataset |-> Cardinality({h.tok : h \in {g \in Handles(st) : g.k = "dataset"}}),
   attr |-> Cardinality({h.tok : h \in {g \in Handles(st) : g.k = "attr"}})]
Free(st, f) == \A h \in Handles(st) : h.file # f

Range(s) == {s[i] : i \in DOMAIN s}
Start(ev) == Empty
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      t == r.st
      noattr == \A h \in Handles(t) : h.k # "attr"
      eq == {<<p[1][1], p[2][1]>> : p \in EqualPairs(t)}
      wrong ==
        (IF ev.res # r.res THEN {"outcome"} ELSE {})
        \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE
              (IF Range(ev.obs.ok) # Usable(t) THEN {"usable"} ELSE {})
              \cup (IF Range(ev.obs.eq) # eq THEN {"equal"} ELSE {})
              \cup (IF \E k \in DOMAIN Open(t) : ev.obs.open[k] # Open(t)[k] THEN {"released"} ELSE {})
              \cup (IF noattr /\ \E k \in {"type", "space", "plist"} : ev.obs.open[k] # 0 THEN {"leaked"} ELSE {})
              \cup (IF \E f \in {"a", "b"} : ev.obs.free[f] # Free(t, f) THEN {"closed"} ELSE {}))
  IN [st |-> t, wrong |-> wrong, exp |-> [res |-> r.res, ok |-> Usable(t), open |-> Open(t), eq |-> eq]]
=============================================================================
