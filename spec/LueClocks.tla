----------------------------- MODULE LueClocks -----------------------------
(* Clocks, with an epoch, a unit and a number of units per tick; time points and durations in ticks of them; and the
   texts by which configuration aspects are stored. Numbers of units are codes: the larger the code the larger the number. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slots == 0..5
Units == <<"nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day", "week", "month", "year">>
UnitNr(u) == CHOOSE i \in DOMAIN Units : Units[i] = u
\* - means absent
Epoch(kind, origin, cal) == [kind |-> kind, origin |-> origin, cal |-> cal]
UnixEpoch == Epoch("common_era", "1970-01-01T00:00:00+00:00", "gregorian")
IsEpoch(e) == e.cal # "-" => e.origin # "-"
Clock(e, unit, n) == [e |-> e, unit |-> unit, n |-> n]
NoClock == [unit |-> "-"]
Empty == [s \in Slots |-> NoClock]
Used(st) == {s \in Slots : st[s] # NoClock}

Texts ==
  [ShapePerObject |-> {"same_shape", "different_shape"}, ValueVariability |-> {"constant", "variable"},
   ShapeVariability |-> {"constant_shape", "variable_shape"}, TimeDomainItemType |-> {"box", "cell", "point"},
   Mobility |-> {"mobile", "stationary"}, SpaceDomainItemType |-> {"point", "box"},
   SpaceDiscretization |-> {"regular_grid"}, TimeDiscretization |-> {"regular_grid"},
   Unit |-> {Units[i] : i \in DOMAIN Units}, Calendar |-> {"gregorian"}, EpochKind |-> {"common_era", "formation_of_earth"}]
Kinds == DOMAIN Texts

\* a number that is v times the power of two it is divided by
Over(v) == [times |-> v, rest |-> 0]
OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
Apply(st, op) ==
  CASE op.a = "Make" -> OK([st EXCEPT ![op.to] = Clock(op.e, op.unit, op.n)], <<>>)
    \* copied, moved, stored in a file and read
    [] op.a \in {"Copy", "Stored"} -> OK([st EXCEPT ![op.to] = st[op.from]], <<>>)
    [] op.a \in {"Move", "Swap"} -> OK([st EXCEPT ![op.to] = st[op.from], ![op.from] = st[op.to]], <<>>)
    [] op.a \in {"Relate", "Sort"} -> OK(st, <<>>)
    [] op.a = "Describe" -> OK(st, st[op.from])
    \* a time point, in a clock with ticks of so many units: op.ticks * 2^op.te ticks of op.n * 2^op.ne units each
    [] op.a = "Point" -> OK(st, [units |-> Over(op.ticks * op.n), ticks |-> Over(op.ticks), n |-> Over(op.n), same |-> TRUE])
    [] op.a = "Durations" -> OK(st, [eq |-> op.x = op.y])
    [] op.a = "Defaults" -> OK(st, [n |-> 1, e |-> UnixEpoch])
    [] op.a = "ToText" -> OK(st, [text |-> op.value])
    [] op.a = "OfText" -> IF op.text \in Texts[op.kind] THEN OK(st, [value |-> op.text]) ELSE Err(st)
    [] op.a = "Aspect" -> OK(st, [value |-> op.value, equal |-> op.value = op.other])

----------------------------------------------------------------------------
(* lt[i][j], eq[i][j]: relations of the clocks held, in the order of their slots *)
Related(c, lt, eq, ne) ==
  LET D == DOMAIN c
  IN /\ \A i, j \in D : eq[i][j] = (c[i] = c[j]) /\ ne[i][j] = (c[i] # c[j])
     /\ \A i, j \in D : Cardinality({k \in 1..3 : <<lt[i][j], c[i] = c[j], lt[j][i]>>[k]}) = 1
     /\ \A i, j, k \in D : (lt[i][j] /\ lt[j][k]) => lt[i][k]
     /\ \A i, j \in D : UnitNr(c[i].unit) < UnitNr(c[j].unit) => lt[i][j]
     /\ \A i, j \in D : (c[i].unit = c[j].unit /\ c[i].n < c[j].n) => lt[i][j]
\* the clocks (by number) in some order of unit and number of units; each as often as it was there
Sorted(c, order) ==
  /\ Len(order) = Len(c)
  /\ \A d \in {c[i] : i \in DOMAIN c} :
       Cardinality({i \in DOMAIN c : c[i] = d}) = Cardinality({i \in DOMAIN order : c[order[i]] = d})
  /\ \A i, j \in DOMAIN order : LET x == c[order[i]]  y == c[order[j]] IN
       i < j => /\ UnitNr(x.unit) <= UnitNr(y.unit)
                /\ (x.unit = y.unit) => x.n <= y.n
                \* those that are the same are next to each other
                /\ x = y => \A k \in i..j : c[order[k]] = x
RECURSIVE SeqOf(_, _)
SeqOf(st, s) == IF s > 5 THEN <<>> ELSE (IF st[s] = NoClock THEN <<>> ELSE <<st[s]>>) \o SeqOf(st, s + 1)
Clocks(st) == SeqOf(st, 0)

Start(ev) == Empty
RetOK(r, ev) == r.ret = <<>> \/ \A f \in DOMAIN r.ret : f \in DOMAIN ev.ret /\ ev.ret[f] = r.ret[f]
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      c == Clocks(r.st)
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~RetOK(r, ev) THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
                     ELSE IF ev.res # "ok" THEN {}
                     ELSE (IF ev.op.a = "Relate" /\ ~Related(c, ev.ret.lt, ev.ret.eq, ev.ret.ne) THEN {"relations"} ELSE {})
                          \cup (IF ev.op.a = "Sort" /\ ~Sorted(c, ev.ret.order) THEN {"order"} ELSE {})
                          \cup (IF ev.op.a = "Sort" /\ (ev.ret.distinct # Cardinality({c[i] : i \in DOMAIN c}) \/ ~ev.ret.found)
                                THEN {"collected"} ELSE {}))
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, clocks |-> c]]
=============================================================================
