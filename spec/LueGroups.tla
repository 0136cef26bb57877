----------------------------- MODULE LueGroups -----------------------------
(* Objects in a file: groups with links by name, and arrays. Node 1 is the root. A link is hard (to a node) or soft
   (a path, from the root or from the group the link is in). Slots hold open objects. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Slots == 0..3
NoLinks == [n \in {} |-> <<>>]
Empty == [kind |-> <<"group">>, links |-> <<NoLinks>>, slot |-> [s \in Slots |-> 0]]
Fuel == 30
Group(st, n) == n # 0 /\ st.kind[n] = "group"
Has(st, n, name) == name \in DOMAIN st.links[n]

\* what a path leads to: <<node, links left to follow>>, node 0 if it leads nowhere
RECURSIVE Res(_, _, _, _)
Res(st, n, p, f) ==
  IF p = <<>> THEN <<n, f>>
  ELSE IF ~Group(st, n) \/ ~Has(st, n, Head(p)) THEN <<0, f>>
  ELSE LET k == st.links[n][Head(p)] IN
    IF k.t = "hard" THEN Res(st, k.to, Tail(p), f)
    ELSE IF f = 0 THEN <<0, 0>>
    ELSE LET r == Res(st, IF k.abs THEN 1 ELSE n, k.path, f - 1) IN IF r[1] = 0 THEN r ELSE Res(st, r[1], Tail(p), r[2])
From(st, op) == IF op.abs THEN 1 ELSE st.slot[op.from]
Node(st, op) == Res(st, From(st, op), op.path, Fuel)[1]
\* the link a path ends with: "none", "hard", "soft"
LinkAt(st, n, path) ==
  LET g == Res(st, n, SubSeq(path, 1, Len(path) - 1), Fuel)[1]
      name == path[Len(path)]
  IN IF ~Group(st, g) \/ ~Has(st, g, name) THEN "none" ELSE st.links[g][name].t
KindAt(st, n, path) == LET m == Res(st, n, path, Fuel)[1] IN IF m = 0 THEN "none" ELSE st.kind[m]
GroupNames(st, n) == {x \in DOMAIN st.links[n] : KindAt(st, n, <<x>>) = "group"}
ObjectNames(st, n) == {x \in DOMAIN st.links[n] : KindAt(st, n, <<x>>) # "none"}

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
Put(st, g, name, link) == [st EXCEPT !.links[g] = [m \in DOMAIN st.links[g] \cup {name} |-> IF m = name THEN link ELSE st.links[g][m]]]
New(st, g, name, kind, to) ==
  LET n == Len(st.kind) + 1
      a == [st EXCEPT !.kind = Append(@, kind), !.links = Append(@, NoLinks), !.slot[to] = n]
  IN Put(a, g, name, [t |-> "hard", to |-> n])

\* soft: the path by which a created soft link refers to its target
Apply(st, op, soft) ==
  CASE op.a = "Root" -> OK([st EXCEPT !.slot[op.to] = 1], <<>>)
    [] op.a \in {"OpenGroup", "OpenData"} -> LET n == Node(st, op) IN
         IF n = 0 \/ st.kind[n] # (IF op.a = "OpenGroup" THEN "group" ELSE "data") THEN Err(st)
         ELSE OK([st EXCEPT !.slot[op.to] = n], <<>>)
    [] op.a \in {"CreateGroup", "CreateData"} ->
         LET g == Res(st, st.slot[op.from], SubSeq(op.path, 1, Len(op.path) - 1), Fuel)[1]
             name == op.path[Len(op.path)]
         IN IF ~Group(st, g) \/ Has(st, g, name) THEN Err(st)
            ELSE OK(New(st, g, name, IF op.a = "CreateGroup" THEN "group" ELSE "data", op.to), <<>>)
    [] op.a = "CreateSoft" -> LET g == st.slot[op.from] IN
         IF Has(st, g, op.name) THEN Err(st) ELSE OK(Put(st, g, op.name, [t |-> "soft", abs |-> TRUE, path |-> soft]), <<>>)
    [] op.a = "CreateHard" -> LET g == st.slot[op.from] IN
         IF Has(st, g, op.name) THEN Err(st) ELSE OK(Put(st, g, op.name, [t |-> "hard", to |-> st.slot[op.target]]), <<>>)
    \* by others
    [] op.a = "RawSoft" -> OK(Put(st, st.slot[op.from], op.name, [t |-> "soft", abs |-> op.abs, path |-> op.path]), <<>>)
    [] op.a = "Contains" ->
         LET n == From(st, op)
             l == LinkAt(st, n, op.path)
             k == KindAt(st, n, op.path)
         IN OK(st, [group |-> k = "group", data |-> k = "data", soft |-> l = "soft", hard |-> l = "hard"])
    [] op.a = "Names" -> OK(st, [groups |-> GroupNames(st, st.slot[op.from]), objects |-> ObjectNames(st, st.slot[op.from])])
    [] op.a = "Path" -> OK(st, [path |-> st.links[st.slot[op.from]][op.name].path, abs |-> st.links[st.slot[op.from]][op.name].abs])
    [] op.a = "Parent" -> OK(st, <<>>)
    [] op.a = "Equal" -> LET e == st.slot[op.from] = st.slot[op.other] IN OK(st, [eq |-> e, ne |-> ~e, ids |-> e])
    [] op.a = "Copy" -> OK([st EXCEPT !.slot[op.to] = st.slot[op.from]], <<>>)
    [] op.a = "Close" -> OK([st EXCEPT !.slot[op.to] = 0], <<>>)
    [] op.a = "Reopen" -> OK([st EXCEPT !.slot = [s \in Slots |-> 0]], <<>>)

----------------------------------------------------------------------------
Start(ev) == Empty
ToSet(s) == {s[i] : i \in DOMAIN s}
RetOK(op, r, ev) ==
  CASE op.a = "Names" -> /\ ToSet(ev.ret.groups) = r.ret.groups /\ Len(ev.ret.groups) = Cardinality(r.ret.groups)
                         /\ ToSet(ev.ret.objects) = r.ret.objects /\ Len(ev.ret.objects) = Cardinality(r.ret.objects)
    [] OTHER -> r.ret = <<>> \/ \A f \in DOMAIN r.ret : f \in DOMAIN ev.ret /\ ev.ret[f] = r.ret[f]
\* an open object, as it reports itself, leads back to itself
SlotOK(st, s, o) ==
  IF st.slot[s] = 0 THEN ~o.open
  ELSE /\ o.open
       /\ o.node = st.slot[s]
       /\ Res(st, 1, o.path, Fuel)[1] = st.slot[s]
       /\ IF o.path = <<>> THEN o.name = "" ELSE o.name = o.path[Len(o.path)]
       \* the parent of a group holds it by that name
       /\ (o.group /\ o.parent) => LET p == Res(st, 1, o.parentpath, Fuel)[1] IN
            /\ o.parentnode = p
            /\ o.path # <<>> => Group(st, p) /\ KindAt(st, p, <<o.name>>) = "group" /\ Res(st, p, <<o.name>>, Fuel)[1] = st.slot[s]
       /\ (o.group /\ ~o.parent) => st.slot[s] = 1
       /\ o.group = (st.kind[st.slot[s]] = "group")
SameTree(st, obs) ==
  /\ Len(obs.tree) = Len(st.kind)
  /\ \A n \in DOMAIN st.kind :
       /\ obs.tree[n].kind = st.kind[n]
       /\ DOMAIN obs.tree[n].links = DOMAIN st.links[n]
       /\ \A x \in DOMAIN st.links[n] :
            LET a == obs.tree[n].links[x]
                b == st.links[n][x]
            IN a.t = b.t /\ IF a.t = "hard" THEN a.to = b.to ELSE a.abs = b.abs /\ a.path = b.path
Judge(st, ev) ==
  LET soft == IF "soft" \in DOMAIN ev.ret THEN ev.ret.soft ELSE <<>>
      r == Apply(st, ev.op, soft)
      t == r.st
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~RetOK(ev.op, r, ev) THEN {"returned"} ELSE {})
               \cup (IF ev.op.a = "CreateSoft" /\ ev.res = "ok" /\ Res(st, 1, soft, Fuel)[1] # st.slot[ev.op.target] THEN {"target"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
                     ELSE (IF ~SameTree(t, ev.obs) THEN {"tree"} ELSE {})
                          \cup {"slot" : s \in {x \in Slots : Len(ev.obs.tree) # Len(t.kind) \/ ~SlotOK(t, x, ev.obs.slot[x + 1])}})
  IN [st |-> t, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, st |-> t]]
=============================================================================
