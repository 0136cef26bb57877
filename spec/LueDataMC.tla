----------------------------- MODULE LueDataMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of bounded instances of LueData. FOCUS chooses   *)
(* which operations take part; BOUND is the number of operations.          *)
(***************************************************************************)
EXTENDS LueData, LueDataValid, IOUtils

Focus == IOEnv.FOCUS
Bound == atoi(IOEnv.BOUND)

VARIABLES db, n, last    \* last: the operation, its outcome and the state it was applied to
vars == <<db, n, last>>

Psets == Keys(db, "pset") \cup Keys(db, "cpset")
PropKeys == Keys(db, "prop")
Clock == [ek |-> "ce", org |-> -9, cal |-> 1, unit |-> 3, n |-> 1]
SetOp(up, coll, nm, td, tdsrc, ot, otsrc, type, sd) ==
  [a |-> "AddS", up |-> up, coll |-> coll, nm |-> nm, td |-> td, tdsrc |-> tdsrc, ot |-> ot, otsrc |-> otsrc, type |-> type,
   clock |-> Clock, sd |-> sd]
PropOp(up, nm, kind, shape) ==
  [a |-> "Addp", up |-> up, nm |-> nm, kind |-> kind, dt |-> "u8", shape |-> shape, plain |-> TRUE, desc |-> 0]

Structure ==
  {[a |-> "AddU", nm |-> nm] : nm \in 1..2}
  \cup {[a |-> "AddP", up |-> up, nm |-> 1, desc |-> 0] : up \in {"D", "U1", "U2"}}
  \cup {SetOp(up, c, nm, "own", "", "own", "", "point", NoSd) : up \in Keys(db, "phen"), c \in BOOLEAN, nm \in 1..2}
  \cup {PropOp(up, nm, k, <<1>>) : up \in Psets, nm \in 1..2, k \in {"ss", "dsvs"}}
Sharing ==
  {SetOp("P1", FALSE, nm, "own", "", "own", "", t, NoSd) : nm \in 1..3, t \in {"point", "box"}}
  \cup {SetOp("P1", FALSE, nm, "share", k, "own", "", "point", NoSd) : nm \in 1..3, k \in Psets}
  \cup {SetOp("P1", FALSE, nm, "own", "", "share", k, "point", NoSd) : nm \in 1..3, k \in Psets}
  \cup {SetOp("P1", FALSE, nm, "share", k, "share", j, "point", NoSd) : nm \in 1..3, k \in Psets, j \in Psets}
Tracker ==
  {[a |-> "Ids", key |-> "P1", ids |-> s, how |-> "range"] : s \in {<<1>>, <<2>>, <<1, 2>>}}
  \cup {[a |-> "Ot", key |-> k, f |-> f, vals |-> <<v>>, how |-> "range"] : k \in Psets, f \in {"asi", "aoid", "aoi"}, v \in 0..1}
Time ==
  {[a |-> "Td", key |-> k, f |-> "items", vals |-> IF Width(db.td[db.items[k].tdo], "items") = 1 THEN <<v>> ELSE <<v, v + 1>>,
    how |-> "range"] : k \in {x \in Psets : db.items[x].tdo # ""}, v \in 0..2}
Space == {[a |-> "Sd", key |-> k, tags |-> <<v>>, how |-> "range", typed |-> FALSE, dt |-> "u8"] :
            k \in {x \in Psets : db.items[x].sd # NoSd}, v \in 0..1}
Discs == {[a |-> a, key |-> k, to |-> j, thru |-> ""] : a \in {"TDisc", "SDisc"}, k \in PropKeys, j \in PropKeys}
         \cup {[a |-> "Pres", key |-> k, to |-> j] : k \in {x \in Psets : db.items[x].sd # NoSd}, j \in PropKeys}
Modes == {[a |-> "Reopen", mode |-> m] : m \in {"rw", "ro"}}

VOps(k) ==
  LET v == db.items[k].val
      kind == db.items[k].kind
  IN
  CASE kind \in {"ss", "sscs"} ->
         {[a |-> "VExpand", key |-> k, tags |-> t, how |-> "range", write |-> TRUE] : t \in {<<1>>, <<2, 3>>}}
         \cup {[a |-> "VWrite", key |-> k, idx |-> i, tags |-> <<4>>] : i \in 0..Len(v.arr) - 1}
    [] kind = "ssvs" ->
         {[a |-> "LExpand", key |-> k, idx |-> i, shape |-> <<s>>, tags |-> t] : i \in 0..1, s \in 1..2, t \in {<<>>, <<1>>}}
         \cup {[a |-> "LGrow", key |-> k, idx |-> i, tags |-> <<2>>, how |-> "range"] : i \in 0..1}
         \cup {[a |-> "LWrite", key |-> k, idx |-> i, at |-> 0, tags |-> <<3>>] : i \in {j \in 0..1 : j \notin DOMAIN v.loc \/ v.loc[j].arr # <<>>}}
    [] kind = "ds" ->
         {[a |-> "OExpand", key |-> k, ids |-> ids, shapes |-> [i \in 1..Len(ids) |-> <<i>>], tags |-> [i \in 1..Len(ids) |-> i], how |-> "range"] :
            ids \in {<<0>>, <<1>>, <<1, 2>>, <<2, 2>>}}
         \cup {[a |-> "OWrite", key |-> k, id |-> id, tag |-> 9] : id \in 0..2}
    [] kind = "dscs" ->
         {[a |-> "CExpand", key |-> k, ids |-> ids, shapes |-> [i \in 1..Len(ids) |-> <<i>>], tags |-> [i \in 1..Len(ids) |-> <<i>>], how |-> "range"] :
            ids \in {<<0>>, <<1, 2>>, <<2, 2>>}}
         \cup {[a |-> "CGrow", key |-> k, id |-> id, tags |-> <<8>>, how |-> "range"] : id \in 0..2}
         \cup {[a |-> "CWrite", key |-> k, id |-> id, at |-> 0, tags |-> <<9>>] : id \in 0..2}
    [] kind = "dsvs" ->
         {[a |-> "MExpand", key |-> k, idx |-> x, ids |-> ids, shapes |-> [i \in 1..Len(ids) |-> <<i>>], tags |-> [i \in 1..Len(ids) |-> i]] :
            x \in 0..1, ids \in {<<>>, <<0>>, <<1, 2>>, <<2, 2>>}}
         \cup {[a |-> "MGrow", key |-> k, idx |-> x, ids |-> <<id>>, shapes |-> <<<<1>>>>, tags |-> <<5>>, how |-> "range"] : x \in 0..1, id \in 0..2}
         \cup {[a |-> "MWrite", key |-> k, idx |-> x, id |-> id, tag |-> 6] : x \in 0..1, id \in 0..2}

SdBox == [mob |-> FALSE, box |-> TRUE, dt |-> "u8", rank |-> 1]
SdPoint == [mob |-> TRUE, box |-> FALSE, dt |-> "u8", rank |-> 2]
PropsOf(kinds) == {PropOp("P1.S1", i, kinds[i], <<1>>) : i \in DOMAIN kinds}

Prepared(ops) == FoldLeft(LAMBDA d, op : Apply(d, op).db, EmptyDb, ops)
C0 == <<[a |-> "Create", desc |-> 0]>>
P1 == C0 \o <<[a |-> "AddP", up |-> "D", nm |-> 1, desc |-> 0]>>
S1(sd) == P1 \o <<SetOp("P1", FALSE, 1, "own", "", "own", "", "point", sd)>>
Start ==
  CASE Focus = "structure" -> Prepared(C0)
    [] Focus = "sharing" -> Prepared(P1)
    [] Focus = "domains" -> Prepared(S1(SdPoint) \o <<SetOp("P1", FALSE, 2, "share", "P1.S1", "own", "", "point", NoSd)>>)
    [] Focus = "disc" -> Prepared(S1(SdBox) \o <<PropOp("P1.S1", 1, "ss", <<1>>), PropOp("P1.S1", 2, "ds", <<1>>), PropOp("P1.S1", 3, "sscs", <<1>>)>>)
    [] Focus = "same" -> Prepared(S1(NoSd) \o <<PropOp("P1.S1", 1, "ss", <<1>>), PropOp("P1.S1", 2, "sscs", <<>>)>>)
    [] Focus = "different" -> Prepared(S1(NoSd) \o <<PropOp("P1.S1", 1, "ds", <<1>>), PropOp("P1.S1", 2, "dscs", <<1>>)>>)
    [] Focus = "variable" -> Prepared(S1(NoSd) \o <<PropOp("P1.S1", 1, "ssvs", <<1>>), PropOp("P1.S1", 2, "dsvs", <<1>>)>>)
    [] Focus = "valid" -> Prepared(S1(SdPoint) \o <<PropOp("P1.S1", 1, "ss", <<1>>), PropOp("P1.S1", 2, "sscs", <<1>>), PropOp("P1.S1", 3, "dscs", <<1>>)>>)

Ops ==
  CASE Focus = "structure" -> Structure \cup Modes
    [] Focus = "sharing" -> Sharing \cup {o \in Tracker : o.a = "Ot" /\ o.f = "aoid" /\ o.vals = <<1>>}
                            \cup {o \in Time : o.vals[1] = 1}
    [] Focus = "domains" -> Tracker \cup Time \cup Space \cup Modes
    [] Focus = "disc" -> Discs \cup Modes
    [] Focus \in {"same", "different", "variable"} -> UNION {VOps(k) : k \in PropKeys} \cup {[a |-> "Reopen", mode |-> "ro"], [a |-> "Reopen", mode |-> "rw"]}
    [] Focus = "valid" -> Tracker \cup {o \in Time : o.vals[1] = 1} \cup {o \in Space : o.tags = <<1>>}
                          \cup {o \in UNION {VOps(k) : k \in PropKeys} : o.a \in {"VExpand", "CExpand", "CGrow"}}

Init == db = Start /\ n = 0 /\ last = [op |-> [a |-> "Create"], res |-> "ok", old |-> Start]
Next == /\ n < Bound
        /\ \E op \in Ops : LET r == Apply(db, op) IN
             /\ db' = r.db
             /\ n' = n + 1
             /\ last' = [op |-> op, res |-> r.res, old |-> db]
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Invariants                                                              *)
TypeOK ==
  /\ db.rw \in BOOLEAN
  /\ \A k \in DOMAIN db.items : db.items[k].k \in {"ds", "uni", "phen", "pset", "cpset", "prop", "loose"}

\* every item is in a collection that exists, and nothing in a collection shares its name
Rooted == \A k \in DOMAIN db.items \ {"D"} : db.items[k].k # "loose" => Has(db, db.items[k].up)
UniqueNames == \A j, k \in DOMAIN db.items :
  (j # k /\ db.items[j].up = db.items[k].up /\ db.items[j].k = db.items[k].k) => db.items[j].nm # db.items[k].nm
Refused == last.res = "err" => db = last.old
ReadOnly == (~last.old.rw /\ last.op.a # "Reopen") => db = last.old
NothingLost == DOMAIN last.old.items \subseteq DOMAIN db.items
\* trackers and time domains are owned by exactly one property-set, and are reached from all that share them
Owned == \A s \in Psets : /\ db.items[db.items[s].oto].oto = db.items[s].oto
                          /\ db.items[s].tdo # "" => db.items[db.items[s].tdo].tdo = db.items[s].tdo
OwnersExist == DOMAIN db.ot = {db.items[s].oto : s \in Psets} /\ DOMAIN db.td = {db.items[s].tdo : s \in Psets} \ {""}
\* what a tracker operation changes is shown by those that share it, and by no other
TrackerScope == (last.op.a = "Ot" /\ last.res = "ok") =>
  \A s \in Psets : (Show(db, s).ot = Show(last.old, s).ot) <=> (db.items[s].oto # db.items[last.op.key].oto)
TimeScope == (last.op.a = "Td" /\ last.res = "ok") =>
  \A s \in Psets : (Show(db, s).td = Show(last.old, s).td) <=> (db.items[s].tdo # db.items[last.op.key].tdo)
\* a discretization is set at most once, and refers to an existing property
DiscSet == \A p \in PropKeys : \A f \in {"tdisc", "sdisc"} :
  /\ db.items[p][f] # "" => IsProp(db, db.items[p][f])
  /\ (p \in DOMAIN last.old.items /\ last.old.items[p][f] # "") => db.items[p][f] = last.old.items[p][f]
\* an operation on a value changes that value only; what was stored stays, unless written to
ValueScope == (last.op.a \in ValueOps /\ last.res = "ok") =>
  \A k \in DOMAIN db.items : k # last.op.key => db.items[k] = last.old.items[k]
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Append_ == (last.res = "ok" /\ last.op.a \in {"VExpand", "LExpand", "LGrow", "OExpand", "CExpand", "CGrow", "MExpand", "MGrow"}) =>
  LET o == last.old.items[last.op.key].val
      v == db.items[last.op.key].val
      kind == db.items[last.op.key].kind
  IN CASE kind \in {"ss", "sscs"} -> IsPrefixOf(o.arr, v.arr)
       [] kind = "ssvs" -> \A i \in DOMAIN o.loc : v.loc[i].shape = o.loc[i].shape /\ IsPrefixOf(o.loc[i].arr, v.loc[i].arr)
       [] kind = "ds" -> \A i \in DOMAIN o.obj : v.obj[i] = o.obj[i]
       [] kind = "dscs" -> \A i \in DOMAIN o.obj : v.obj[i].shape = o.obj[i].shape /\ IsPrefixOf(o.obj[i].arr, v.obj[i].arr)
       [] kind = "dsvs" -> \A i \in DOMAIN o.loc : \A j \in DOMAIN o.loc[i] : v.loc[i][j] = o.loc[i][j]

\* In a valid dataset, everything about every active object at every location in time can be found
Usable == Valid(db) =>
  \A s \in Psets :
    LET t == db.ot[db.items[s].oto]
        ids == db.items[db.items[s].up].ids
    IN \A q \in 1..Len(t.asi) : \A i \in (t.asi[q] + 1)..SetEnd(t.asi, q, Len(t.aoid)) :
         /\ i \in DOMAIN t.aoid
         /\ (db.items[s].tdo # "" /\ db.td[db.items[s].tdo].type # "cell") =>
              q * Width(db.td[db.items[s].tdo], "items") <= Len(db.td[db.items[s].tdo].items)
         /\ (db.items[s].sd # NoSd /\ db.items[s].sd.mob) => i \in DOMAIN db.items[s].sd.arr
         /\ \A p \in Props(db, s) :
              LET v == db.items[p].val IN
              CASE db.items[p].kind = "ss" -> Len(v.arr) = Len(ids)
                [] db.items[p].kind = "sscs" -> i \in DOMAIN v.arr
                [] db.items[p].kind = "dscs" -> t.aoid[i] \in DOMAIN v.obj /\ (t.aoi[i] + 1) \in DOMAIN v.obj[t.aoid[i]].arr
                [] OTHER -> TRUE
=============================================================================
