------------------------------ MODULE LueData ------------------------------
(***************************************************************************)
(* The LUE data model: a dataset with universes, phenomena, property-sets, *)
(* properties, domains and values, and the operations of its API.          *)
(*                                                                         *)
(* The state is a record                                                   *)
(*   items : key -> record    every named item; keys are paths             *)
(*           "D" dataset, "U3" universe 3, "P2" / "U3.P2" phenomenon,      *)
(*           "P2.S1" property-set, "P2.C1" collection property-set,        *)
(*           "P2.S1.p4" property, "L2" a value outside a property          *)
(*   ot    : key -> object tracker   (key of the property-set that owns it)*)
(*   td    : key -> time domain      (key of the property-set that owns it)*)
(*   rw    : opened for writing?                                           *)
(*                                                                         *)
(* Apply(db, op) is the complete meaning of an API call: the next state    *)
(* and whether the call succeeds. Object array contents are tags; how tags *)
(* are coded in cells of all value types is up to the driver.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NoData == -2
Kinds == {"ss", "sscs", "ssvs", "ds", "dscs", "dsvs"}
Str(n) == ToString(n)

Ok(db) == [db |-> db, res |-> "ok", ret |-> [none |-> TRUE]]
OkRet(db, ret) == [db |-> db, res |-> "ok", ret |-> ret]
Refuse(db) == [db |-> db, res |-> "err", ret |-> [none |-> TRUE]]

EmptyDb == [items |-> <<>>, ot |-> <<>>, td |-> <<>>, rw |-> TRUE]

Has(db, key) == key \in DOMAIN db.items
Item(db, key) == db.items[key]
IsKind(db, key, k) == Has(db, key) /\ db.items[key].k = k

PutItem(db, key, rec) == [db EXCEPT !.items = (key :> rec) @@ @]

Keys(db, k) == {x \in DOMAIN db.items : db.items[x].k = k}
Children(db, key, k) == {x \in Keys(db, k) : db.items[x].up = key}
SortInts(S) == SetToSortSeq(S, <)
\* names of the items of a kind in a collection, in order
Names(db, key, k) == SortInts({db.items[x].nm : x \in Children(db, key, k)})

----------------------------------------------------------------------------
(* Values. A value is one of                                               *)
(*  ss, sscs  [dt, shape, arr]         arr: sequence of tags               *)
(*  ssvs      [dt, rank, loc]          loc: idx -> [shape, arr]            *)
(*  ds        [dt, rank, obj]          obj: id  -> [shape, tag]            *)
(*  dscs      [dt, rank, obj]          obj: id  -> [shape, arr]            *)
(*  dsvs      [dt, rank, loc]          loc: idx -> (id -> [shape, tag])    *)
NewValue(kind, dt, shape, nd) ==
  IF kind \in {"ss", "sscs"} THEN [dt |-> dt, shape |-> shape, arr |-> <<>>, nd |-> nd]
  ELSE IF kind \in {"ssvs", "dsvs"} THEN [dt |-> dt, rank |-> Len(shape), loc |-> <<>>]
  ELSE [dt |-> dt, rank |-> Len(shape), obj |-> <<>>]

\* Replace tags from position at (0-based)
PutAt(arr, at, tags) == [i \in 1..Len(arr) |-> IF i > at /\ i <= at + Len(tags) THEN tags[i - at] ELSE arr[i]]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* function from the ids to what stands at their position
ByID(ids, Val(_)) == [id \in Range(ids) |-> Val(CHOOSE i \in 1..Len(ids) : ids[i] = id)]

VOk(v) == [ok |-> TRUE, v |-> v]
VErr(v) == [ok |-> FALSE, v |-> v]

ApplyValue(kind, v, o) ==
  CASE kind \in {"ss", "sscs"} /\ o.a = "VExpand" -> VOk([v EXCEPT !.arr = @ \o o.tags])
    [] kind \in {"ss", "sscs"} /\ o.a = "VWrite"  -> VOk([v EXCEPT !.arr = PutAt(@, o.idx, o.tags)])
    [] kind = "ssvs" /\ o.a = "LExpand" ->
         IF o.idx \in DOMAIN v.loc THEN VErr(v)
         ELSE VOk([v EXCEPT !.loc = (o.idx :> [shape |-> o.shape, arr |-> o.tags]) @@ @])
    [] kind = "ssvs" /\ o.a = "LGrow" ->
         IF o.idx \notin DOMAIN v.loc THEN VErr(v) ELSE VOk([v EXCEPT !.loc[o.idx].arr = @ \o o.tags])
    [] kind = "ssvs" /\ o.a = "LWrite" ->
         IF o.idx \notin DOMAIN v.loc THEN VErr(v) ELSE VOk([v EXCEPT !.loc[o.idx].arr = PutAt(@, o.at, o.tags)])
    [] kind = "ds" /\ o.a = "OExpand" ->
         IF ~Distinct(o.ids) \/ Range(o.ids) \cap DOMAIN v.obj # {} THEN VErr(v)
         ELSE VOk([v EXCEPT !.obj = ByID(o.ids, LAMBDA i : [shape |-> o.shapes[i], tag |-> o.tags[i]]) @@ @])
    [] kind = "ds" /\ o.a = "OWrite" ->
         IF o.id \notin DOMAIN v.obj THEN VErr(v) ELSE VOk([v EXCEPT !.obj[o.id].tag = o.tag])
    [] kind = "dscs" /\ o.a = "CExpand" ->
         IF ~Distinct(o.ids) \/ Range(o.ids) \cap DOMAIN v.obj # {} THEN VErr(v)
         ELSE VOk([v EXCEPT !.obj = ByID(o.ids, LAMBDA i : [shape |-> o.shapes[i], arr |-> o.tags[i]]) @@ @])
    [] kind = "dscs" /\ o.a = "CGrow" ->
         IF o.id \notin DOMAIN v.obj THEN VErr(v) ELSE VOk([v EXCEPT !.obj[o.id].arr = @ \o o.tags])
    [] kind = "dscs" /\ o.a = "CWrite" ->
         IF o.id \notin DOMAIN v.obj THEN VErr(v) ELSE VOk([v EXCEPT !.obj[o.id].arr = PutAt(@, o.at, o.tags)])
    [] kind = "dsvs" /\ o.a = "MExpand" ->
         IF o.idx \in DOMAIN v.loc \/ ~Distinct(o.ids) THEN VErr(v)
         ELSE VOk([v EXCEPT !.loc = (o.idx :> ByID(o.ids, LAMBDA i : [shape |-> o.shapes[i], tag |-> o.tags[i]])) @@ @])
    [] kind = "dsvs" /\ o.a = "MGrow" ->
         IF o.idx \notin DOMAIN v.loc \/ ~Distinct(o.ids) \/ Range(o.ids) \cap DOMAIN v.loc[o.idx] # {} THEN VErr(v)
         ELSE VOk([v EXCEPT !.loc[o.idx] = ByID(o.ids, LAMBDA i : [shape |-> o.shapes[i], tag |-> o.tags[i]]) @@ @])
    [] kind = "dsvs" /\ o.a = "MWrite" ->
         IF o.idx \notin DOMAIN v.loc \/ o.id \notin DOMAIN v.loc[o.idx] THEN VErr(v)
         ELSE VOk([v EXCEPT !.loc[o.idx][o.id].tag = o.tag])

ValueOps == {"VExpand", "VWrite", "LExpand", "LGrow", "LWrite", "OExpand", "OWrite", "CExpand", "CGrow", "CWrite",
             "MExpand", "MGrow", "MWrite"}

----------------------------------------------------------------------------
(* Additions                                                               *)
NewDataset(o) == Ok(PutItem(EmptyDb, "D", [k |-> "ds", up |-> "", nm |-> 0, desc |-> o.desc]))

AddU(db, o) ==
  LET key == "U" \o Str(o.nm)
  IN IF ~db.rw \/ Has(db, key) THEN Refuse(db)
     ELSE Ok(PutItem(db, key, [k |-> "uni", up |-> "D", nm |-> o.nm]))

PhenKey(up, nm) == IF up = "D" THEN "P" \o Str(nm) ELSE up \o ".P" \o Str(nm)
AddP(db, o) ==
  LET key == PhenKey(o.up, o.nm)
  IN IF ~db.rw \/ ~Has(db, o.up) \/ Has(db, key) THEN Refuse(db)
     ELSE Ok(PutItem(db, key, [k |-> "phen", up |-> o.up, nm |-> o.nm, desc |-> o.desc, ids |-> <<>>]))

EmptyTracker == [asi |-> <<>>, aoid |-> <<>>, aoi |-> <<>>]
PsetKey(up, coll, nm) == up \o (IF coll THEN ".C" ELSE ".S") \o Str(nm)
NoSd == [none |-> TRUE]
IsPset(db, key) == Has(db, key) /\ db.items[key].k \in {"pset", "cpset"}

\* a property-set owns or shares its tracker and its time domain; sharing what is shared is sharing with the owner
AddS(db, o) ==
  LET key == PsetKey(o.up, o.coll, o.nm)
      oto == IF o.ot = "own" THEN key ELSE db.items[o.otsrc].oto
      tdo == IF o.td = "none" THEN "" ELSE IF o.td = "own" THEN key ELSE db.items[o.tdsrc].tdo
      sd  == IF o.sd = NoSd THEN NoSd
             ELSE [mob |-> o.sd.mob, box |-> o.sd.box, dt |-> o.sd.dt,
                   shape |-> <<IF o.sd.box THEN 2 * o.sd.rank ELSE o.sd.rank>>, arr |-> <<>>, pres |-> ""]
  IN IF ~db.rw \/ ~IsKind(db, o.up, "phen") \/ Has(db, key)
        \/ (o.ot = "share" /\ ~IsPset(db, o.otsrc)) \/ (o.td = "share" /\ ~IsPset(db, o.tdsrc))
     THEN Refuse(db)
     ELSE LET d1 == PutItem(db, key, [k |-> IF o.coll THEN "cpset" ELSE "pset", up |-> o.up, nm |-> o.nm,
                                      oto |-> oto, tdo |-> tdo, sd |-> sd])
              d2 == IF o.ot = "own" THEN [d1 EXCEPT !.ot = (key :> EmptyTracker) @@ @] ELSE d1
              d3 == IF o.td = "own"
                    THEN [d2 EXCEPT !.td = (key :> [type |-> o.type, clock |-> o.clock, items |-> <<>>, cnt |-> <<>>]) @@ @]
                    ELSE d2
          IN Ok(d3)

PropKey(up, nm) == up \o ".p" \o Str(nm)
Addp(db, o) ==
  LET key == PropKey(o.up, o.nm)
  IN IF ~db.rw \/ ~IsPset(db, o.up) \/ Has(db, key) THEN Refuse(db)
     ELSE Ok(PutItem(db, key, [k |-> "prop", up |-> o.up, nm |-> o.nm, kind |-> o.kind, desc |-> o.desc,
                               tdisc |-> "", sdisc |-> "", val |-> NewValue(o.kind, o.dt, o.shape, FALSE)]))

\* a value that is not part of a property, with a value type in the file that differs from the one in memory
AddL(db, o) ==
  IF ~db.rw \/ Has(db, o.key) THEN Refuse(db)
  ELSE Ok(PutItem(db, o.key, [k |-> "loose", up |-> "", nm |-> 0, kind |-> o.kind,
                              val |-> NewValue(o.kind, IF o.fdt = o.dt THEN o.dt ELSE o.dt \o "/" \o o.fdt, o.shape, o.nd)]))

----------------------------------------------------------------------------
(* Identity, domains and relations                                         *)
PutOne(s, idx, x) == [s EXCEPT ![idx + 1] = x]

Ids(db, o) ==
  IF ~IsKind(db, o.key, "phen") \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].ids = @ \o o.ids])
IdsPut(db, o) ==
  IF ~IsKind(db, o.key, "phen") \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].ids = PutOne(@, o.idx, o.id)])

Ot(db, o) ==
  IF ~IsPset(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.ot[db.items[o.key].oto][o.f] = @ \o o.vals])
OtPut(db, o) ==
  IF ~IsPset(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.ot[db.items[o.key].oto][o.f] = PutOne(@, o.idx, o.vals[1])])

\* time: o.f is "items" or "cnt"
Width(td, f) == IF f = "cnt" \/ td.type = "point" THEN 1 ELSE 2
Td(db, o) ==
  IF ~IsPset(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.td[db.items[o.key].tdo][o.f] = @ \o o.vals])
TdPut(db, o) ==
  IF ~IsPset(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE LET own == db.items[o.key].tdo
           w == Width(db.td[own], o.f)
       IN Ok([db EXCEPT !.td[own][o.f] = PutAt(@, w * o.idx, o.vals)])

Sd(db, o) ==
  IF ~IsPset(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].sd.arr = @ \o o.tags])
SdPut(db, o) ==
  IF ~IsPset(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].sd.arr = PutAt(@, o.idx, o.tags)])

IsProp(db, key) == IsKind(db, key, "prop")
Pres(db, o) ==
  IF ~IsPset(db, o.key) \/ ~IsProp(db, o.to) \/ ~db.rw \/ db.items[o.key].sd.pres # "" THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].sd.pres = o.to])
TDisc(db, o) ==
  IF ~IsProp(db, o.key) \/ ~IsProp(db, o.to) \/ ~db.rw \/ db.items[o.key].tdisc # "" THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].tdisc = o.to])
SDisc(db, o) ==
  IF ~IsProp(db, o.key) \/ ~IsProp(db, o.to) \/ ~db.rw \/ db.items[o.key].sdisc # "" THEN Refuse(db)
  ELSE Ok([db EXCEPT !.items[o.key].sdisc = o.to])

Value(db, o) ==
  IF ~Has(db, o.key) \/ ~db.rw THEN Refuse(db)
  ELSE LET r == ApplyValue(db.items[o.key].kind, db.items[o.key].val, o)
       IN IF r.ok THEN Ok([db EXCEPT !.items[o.key].val = r.v]) ELSE Refuse(db)

\* closing releases everything, and leaves the file of a dataset opened read-only as it was
Reopen(db, o) == OkRet([db EXCEPT !.rw = (o.mode = "rw")], [leak |-> 0, rochg |-> FALSE])

\* navigate from a property to another one by the names of its phenomenon, property-set and itself
Find(db, o) == IF ~IsProp(db, o.key) \/ ~IsProp(db, o.to) THEN Refuse(db) ELSE OkRet(db, [same |-> TRUE])

----------------------------------------------------------------------------
(* Consistency rules                                                       *)
Unique(s) == Distinct(s)
Increasing(s) == \A i \in 1..Len(s)-1 : s[i] <= s[i+1]
Strictly(s) == \A i \in 1..Len(s)-1 : s[i] < s[i+1]
SumSeq(s) == FoldSeq(+, 0, s)

\* The active sets: asi holds, per active set, the index of its first member
SetBegin(asi, i) == asi[i]
SetEnd(asi, i, n) == IF i = Len(asi) THEN n ELSE asi[i + 1]
TrackerValid(ids, t) ==
  /\ Unique(ids)
  /\ (t.asi = <<>>) => (t.aoid = <<>> /\ t.aoi = <<>>)
  /\ t.asi # <<>> =>
       /\ \A i \in 1..Len(t.asi) : SetBegin(t.asi, i) <= SetEnd(t.asi, i, Len(t.aoid))
       /\ \A i \in 1..Len(t.asi) : Unique(SubSeq(t.aoid, SetBegin(t.asi, i) + 1, SetEnd(t.asi, i, Len(t.aoid))))
       /\ t.aoi # <<>> => \A i \in 1..Len(t.asi) : SetBegin(t.asi, i) <= SetEnd(t.asi, i, Len(t.aoi))
  /\ ids # <<>> => Range(t.aoid) \subseteq Range(ids)

TimeValid(td, t) ==
  /\ Increasing(td.items)
  /\ CASE td.type = "point" -> Len(td.items) = Len(t.asi)
       [] td.type = "box" -> Len(td.items) = 2 * Len(t.asi)
       [] td.type = "cell" -> 2 * Len(td.cnt) = Len(td.items) /\ SumSeq(td.cnt) = Len(t.asi)

ValueValid(ids, t, p) ==
  LET v == p.val IN
  CASE p.kind = "ss" -> Len(v.arr) = Len(ids)
    [] p.kind = "sscs" -> Len(v.arr) = Len(t.aoid)
    [] p.kind = "ds" -> Cardinality(DOMAIN v.obj) = Len(ids) /\ Range(ids) \subseteq DOMAIN v.obj
    [] p.kind = "dscs" ->
         /\ DOMAIN v.obj = Range(t.aoid)
         \* every object array of an active object that is referred to is there
         /\ Len(t.aoi) = Len(t.aoid)
         /\ \A i \in 1..Len(t.aoid) : i - 1 >= (IF t.asi = <<>> THEN 0 ELSE t.asi[1]) => t.aoi[i] < Len(v.obj[t.aoid[i]].arr)
    [] p.kind = "ssvs" ->
         /\ Cardinality(DOMAIN v.loc) = Len(t.asi)
         /\ \A i \in 1..Len(t.asi) :
              (i - 1) \in DOMAIN v.loc /\ Len(v.loc[i-1].arr) = SetEnd(t.asi, i, Len(t.aoid)) - SetBegin(t.asi, i)
    [] p.kind = "dsvs" -> Cardinality(DOMAIN v.loc) = Len(t.asi)

----------------------------------------------------------------------------
Apply(db, o) ==
  CASE o.a = "Create" -> NewDataset(o)
    [] o.a = "AddU" -> AddU(db, o)
    [] o.a = "AddP" -> AddP(db, o)
    [] o.a = "AddS" -> AddS(db, o)
    [] o.a = "Addp" -> Addp(db, o)
    [] o.a = "AddL" -> AddL(db, o)
    [] o.a = "Ids" -> Ids(db, o)
    [] o.a = "IdsPut" -> IdsPut(db, o)
    [] o.a = "Ot" -> Ot(db, o)
    [] o.a = "OtPut" -> OtPut(db, o)
    [] o.a = "Td" -> Td(db, o)
    [] o.a = "TdPut" -> TdPut(db, o)
    [] o.a = "Sd" -> Sd(db, o)
    [] o.a = "SdPut" -> SdPut(db, o)
    [] o.a = "Pres" -> Pres(db, o)
    [] o.a = "TDisc" -> TDisc(db, o)
    [] o.a = "SDisc" -> SDisc(db, o)
    [] o.a = "Reopen" -> Reopen(db, o)
    [] o.a = "Find" -> Find(db, o)
    [] o.a \in ValueOps -> Value(db, o)

----------------------------------------------------------------------------
(* What the API shows of a dataset: one record per item                    *)
Sorted(f) == SortInts(DOMAIN f)
ObjTag(obj) == [i \in 1..Cardinality(DOMAIN obj) |-> LET id == Sorted(obj)[i] IN <<id, obj[id].shape, obj[id].tag>>]
ObjArr(obj) == [i \in 1..Cardinality(DOMAIN obj) |-> LET id == Sorted(obj)[i] IN <<id, obj[id].shape, obj[id].arr>>]

ShowValue(kind, v) ==
  CASE kind \in {"ss", "sscs"} -> [dt |-> v.dt, shape |-> v.shape, arr |-> v.arr]
    [] kind = "ssvs" -> [dt |-> v.dt, rank |-> v.rank, n |-> Cardinality(DOMAIN v.loc), loc |-> ObjArr(v.loc), extra |-> 0]
    [] kind = "ds" -> [dt |-> v.dt, rank |-> v.rank, n |-> Cardinality(DOMAIN v.obj), obj |-> ObjTag(v.obj), extra |-> 0]
    [] kind = "dscs" -> [dt |-> v.dt, rank |-> v.rank, n |-> Cardinality(DOMAIN v.obj), obj |-> ObjArr(v.obj), extra |-> 0]
    [] kind = "dsvs" -> [dt |-> v.dt, rank |-> v.rank, n |-> Cardinality(DOMAIN v.loc), extra |-> 0,
                         loc |-> [i \in 1..Cardinality(DOMAIN v.loc) |->
                                    LET idx == Sorted(v.loc)[i]
                                    IN <<idx, Cardinality(DOMAIN v.loc[idx]), ObjTag(v.loc[idx]), 0>>]]

ShowSd(sd) == IF sd = NoSd THEN NoSd
              ELSE [mob |-> sd.mob, box |-> sd.box, pres |-> sd.pres, v |-> [dt |-> sd.dt, shape |-> sd.shape, arr |-> sd.arr]]

Show(db, key) ==
  LET r == db.items[key] IN
  CASE r.k = "ds" -> [k |-> "ds", desc |-> r.desc, unis |-> Names(db, key, "uni"), phens |-> Names(db, key, "phen"),
                      cons |-> TRUE, ver |-> TRUE]
    [] r.k = "uni" -> [k |-> "uni", phens |-> Names(db, key, "phen"), cons |-> TRUE]
    [] r.k = "phen" -> [k |-> "phen", desc |-> r.desc, ids |-> r.ids, psets |-> Names(db, key, "pset"),
                        cpsets |-> Names(db, key, "cpset"), cons |-> TRUE]
    [] r.k \in {"pset", "cpset"} ->
         [k |-> "pset", oto |-> r.oto, owot |-> r.oto = key, ot |-> db.ot[r.oto],
          tdo |-> r.tdo, hastd |-> r.tdo # "", owtd |-> r.tdo = key,
          td |-> IF r.tdo = "" THEN [none |-> TRUE] ELSE db.td[r.tdo],
          hassd |-> r.sd # NoSd, sd |-> ShowSd(r.sd), names |-> Names(db, key, "prop"), cons |-> TRUE]
    [] r.k = "prop" ->
         [k |-> "prop", kind |-> r.kind, desc |-> r.desc, tdisc |-> r.tdisc, sdisc |-> r.sdisc, nav |-> TRUE,
          spo |-> IF r.kind \in {"ss", "sscs", "ssvs"} THEN "same" ELSE "different",
          vv |-> IF r.kind \in {"ss", "ds"} THEN "constant" ELSE "variable",
          sv |-> IF r.kind \in {"ss", "ds"} THEN "none" ELSE IF r.kind \in {"sscs", "dscs"} THEN "constant" ELSE "variable",
          val |-> ShowValue(r.kind, r.val)]
    [] r.k = "loose" -> [k |-> "loose", kind |-> r.kind, val |-> ShowValue(r.kind, r.val)]

ShowAll(db) == [key \in DOMAIN db.items |-> Show(db, key)]
=============================================================================
