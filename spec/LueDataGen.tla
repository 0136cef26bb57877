----------------------------- MODULE LueDataGen -----------------------------
(***************************************************************************)
(* Behaviours of LueData, generated by TLC's simulator, as operations for  *)
(* the implementation. What is drawn depends on FOCUS; what an operation   *)
(* means does not.                                                         *)
(***************************************************************************)
EXTENDS LueData, LueDataValid, Json, IOUtils

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)

VARIABLES db, hist, n
vars == <<db, hist, n>>

One(S) == {TLCEval(RandomElement(S))}
Val(x) == {TLCEval(x)}
Chance(percent) == RandomElement(1..100) <= percent
Seq1(len, S) == TLCEval([i \in 1..len |-> RandomElement(S)])

Skip == UNCHANGED <<db, hist>> /\ n' = n + 1
\* whether doing nothing succeeds when nothing can be done, is not specified
Nothing(op) == \/ "ids" \in DOMAIN op /\ op.ids = <<>> /\ (~db.rw \/ op.a # "MExpand")
               \/ ~db.rw /\ "tags" \in DOMAIN op /\ op.tags = <<>>
               \/ ~db.rw /\ "vals" \in DOMAIN op /\ op.vals = <<>>
Do(op) == IF Nothing(op) THEN Skip
          ELSE /\ hist' = Append(hist, op)
               /\ db' = Apply(db, op).db
               /\ n' = n + 1

\* ... and ask at once whether the dataset is still valid
DoVs(ops) == \E how \in One({"live", "path", "file"}) :
               IF \E i \in 1..Len(ops) : Nothing(ops[i]) THEN Skip
               ELSE /\ hist' = hist \o Append(ops, [a |-> "Validate", how |-> how])
                    /\ db' = FoldLeft(LAMBDA d, op : Apply(d, op).db, db, ops)
                    /\ n' = n + 1
DoV(op) == DoVs(<<op>>)

\* weights of the operations
W ==
  CASE Focus = "M01" -> [AddU |-> 8, AddP |-> 12, AddS |-> 16, Addp |-> 24, Reopen |-> 6, Bad |-> 8, Again |-> 8]
    [] Focus = "M02" -> [AddU |-> 2, AddP |-> 4, AddS |-> 8, Addp |-> 10, AddL |-> 3, Ids |-> 5, Ot |-> 8, Td |-> 8, Sd |-> 6, V |-> 30,
                         Disc |-> 6, Pres |-> 3, Reopen |-> 14]
    [] Focus = "M03" -> [AddU |-> 3, AddP |-> 5, AddS |-> 8, Addp |-> 10, AddL |-> 4, Ids |-> 2, Ot |-> 2, Td |-> 2, V |-> 20, BadV |-> 25,
                         Disc |-> 10, Pres |-> 6, Reopen |-> 8, Bad |-> 12, Again |-> 12]
    [] Focus = "M04" -> [AddU |-> 1, AddP |-> 3, AddS |-> 20, Addp |-> 4, Ids |-> 2, Ot |-> 22, OtPut |-> 8, Td |-> 22, TdPut |-> 8, Sd |-> 3, V |-> 4, Reopen |-> 6]
    [] Focus = "M05" -> [AddP |-> 4, AddS |-> 6, Ids |-> 24, IdsPut |-> 10, Ot |-> 36, OtPut |-> 12, Td |-> 3, V |-> 2, Reopen |-> 6]
    [] Focus = "M06" -> [AddP |-> 2, AddS |-> 14, Td |-> 50, TdPut |-> 16, Ot |-> 4, Reopen |-> 8]
    [] Focus = "M07" -> [AddP |-> 2, AddS |-> 14, Addp |-> 8, Sd |-> 44, SdPut |-> 14, Pres |-> 10, Reopen |-> 8]
    [] Focus = "M08" -> [AddU |-> 2, AddP |-> 6, AddS |-> 12, Addp |-> 26, Disc |-> 30, Pres |-> 6, Find |-> 24, Reopen |-> 8]
    [] Focus = "M09" -> [AddS |-> 3, Addp |-> 9, AddL |-> 9, V |-> 70, Reopen |-> 8]
    [] Focus = "M10" -> [AddS |-> 3, Addp |-> 9, AddL |-> 7, V |-> 70, BadV |-> 6, Reopen |-> 8]
    [] Focus = "M11" -> [AddS |-> 3, Addp |-> 9, AddL |-> 7, V |-> 70, BadV |-> 6, Reopen |-> 8]
    [] Focus = "Y03" -> [AddU |-> 3, AddP |-> 6, AddS |-> 14, Addp |-> 14, Ids |-> 6, IdsPut |-> 2, Ot |-> 8, OtPut |-> 2, Td |-> 8, TdPut |-> 3,
                         Sd |-> 6, SdPut |-> 2, V |-> 30, BadV |-> 6, Disc |-> 10, Pres |-> 3, Reopen |-> 10, Bad |-> 4, Again |-> 5, Check |-> 5]
    [] Focus = "M12d" -> [AddU |-> 1, AddP |-> 1, AddS |-> 5, Addp |-> 16, Disc |-> 14, Pres |-> 9, Fix |-> 120, Fault |-> 6, Reopen |-> 1]
    [] Focus = "M12" -> [AddU |-> 1, AddP |-> 2, AddS |-> 4, Addp |-> 10, Disc |-> 5, Pres |-> 3, Fix |-> 110, Fault |-> 12, Reopen |-> 1]
Deck == TLCEval(FlattenSeq([i \in 1..Cardinality(DOMAIN W) |->
                  LET k == SetToSeq(DOMAIN W)[i] IN [j \in 1..W[k] |-> k]]))

Kinds0 == CASE Focus = "M09" -> {"ss", "sscs"}
            [] Focus = "M10" -> {"ds", "dscs"}
            [] Focus = "M11" -> {"ssvs", "dsvs"}
            [] OTHER -> Kinds
Validity == Focus \in {"M12", "M12d"}
\* the Python API offers less
Py == Focus = "Y03"
OneId(ids) == IF Py /\ ids # <<>> THEN <<ids[1]>> ELSE ids
Names0 == IF Focus = "M01" THEN 1..5 ELSE IF Focus = "M08" THEN 1..4 ELSE IF Validity THEN 1..4 ELSE 1..14
Dts == <<"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64">>
Dt0 == IF Focus = "M12d" THEN {"u8", "u16", "u32", "u64", "i8", "i32", "i64", "f64"} ELSE IF Focus = "M12" THEN {"u8", "u16", "u32", "u64", "i32", "f64"} ELSE Range(Dts)
\* a wider type in the file
Wider == [i8 |-> "i32", u8 |-> "u64", i16 |-> "i32", u16 |-> "u32", i32 |-> "i64", u32 |-> "u64", i64 |-> "i64", u64 |-> "u64",
          f32 |-> "f64", f64 |-> "f64"]
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<4, 1, 2>>, <<1, 2, 1, 3>>, <<2, 1, 2, 1, 2>>, <<1, 2, 1, 1, 2, 1, 2>>}
BigShapes == {<<700, 600>>, <<300000>>, <<70, 70, 70>>}
Tags(len) == Seq1(len, 0..126)
\* numbers of things that are added at once: now and then many
Len0(x, few) == LET r == RandomElement(1..60) IN IF Validity \/ r > 5 THEN RandomElement(few) ELSE IF r > 2 THEN RandomElement(7..12) ELSE IF r = 2 THEN RandomElement(13..40) ELSE RandomElement(60..90)
Lens(few) == {TLCEval(Len0(0, few))}
Lens2(few) == {TLCEval(LET n0 == Len0(0, few) IN IF n0 > 10 THEN 10 ELSE n0)}

UpKeys == {k \in DOMAIN db.items : db.items[k].k \in {"ds", "uni"}}
PhenKeys == Keys(db, "phen")
PsetKeys == Keys(db, "pset") \cup Keys(db, "cpset")
PropKeys == Keys(db, "prop")
ValKeys == {k \in PropKeys \cup Keys(db, "loose") : db.items[k].kind \in Kinds0}
TopPhen(key) == db.items[key].up = "D"

GenAddU == \E nm \in One(Names0) : Do([a |-> "AddU", nm |-> nm])
GenAddP == \E up \in One(UpKeys), nm \in One(Names0), desc \in One(0..6) : Do([a |-> "AddP", up |-> up, nm |-> nm, desc |-> desc])

\* combinations of domains for which the API offers an addition
Clocks(fe) == [ek |-> "ce", org |-> -9, cal |-> 1, unit |-> 3, n |-> 1]
GenAddS ==
  IF PhenKeys = {} THEN GenAddP
  ELSE \E up \in One(PhenKeys), coll \in One(BOOLEAN), nm \in One(Names0),
          c \in One(IF Focus = "M12d" THEN {<<"own", "own", TRUE>>, <<"own", "own", FALSE>>, <<"share", "own", TRUE>>, <<"share", "share", TRUE>>} ELSE
                    {<<"none", "own", FALSE>>, <<"none", "own", TRUE>>, <<"own", "own", FALSE>>, <<"own", "own", TRUE>>,
                     <<"own", "own", FALSE>>, <<"own", "own", TRUE>>, <<"own", "share", FALSE>>, <<"share", "own", FALSE>>,
                     <<"share", "own", TRUE>>, <<"share", "share", FALSE>>, <<"share", "share", TRUE>>}) :
       LET tsrcs == {k \in Keys(db, "pset") \cup Keys(db, "cpset") : db.items[k].tdo # ""}
           osrcs == PsetKeys
           needt == c[1] = "share"
           needo == c[2] = "share"
           td == IF needt /\ tsrcs = {} THEN "own" ELSE c[1]
           ot == IF needo /\ osrcs = {} THEN "own" ELSE IF td = "own" /\ needt /\ c[3] THEN "own" ELSE c[2]
           ok == ~(td = "own" /\ ot = "share" /\ c[3])
       IN \E tsrc \in One(tsrcs \cup {"-"}), osrc \in One(osrcs \cup {"-"}), type \in One({"point", "box", "cell"}),
             ek \in One({"ce", "fe"}), org \in One({-9, 1, 2, 3}), unit \in One(0..6), per \in One(1..8), cal \in One({0, 1}),
             mob \in One(IF Focus = "M12d" THEN {FALSE} ELSE BOOLEAN), box \in One(IF Focus = "M12d" THEN {TRUE} ELSE BOOLEAN), dt \in One(Dt0), rank \in One(1..3) :
            LET ts == IF td # "share" THEN "" ELSE IF tsrc = "-" THEN CHOOSE k \in tsrcs : TRUE ELSE tsrc
                os == IF ot # "share" THEN "" ELSE IF osrc = "-" THEN CHOOSE k \in osrcs : TRUE ELSE osrc
            IN Do([a |-> "AddS", up |-> up, coll |-> coll /\ (Py => (td # "own" /\ ot = "own" /\ ~c[3])), nm |-> nm, td |-> td, tdsrc |-> ts,
                   ot |-> IF ok THEN ot ELSE "own", otsrc |-> IF ok THEN os ELSE "",
                   type |-> type,
                   clock |-> [ek |-> ek, org |-> org, cal |-> IF org = -9 THEN 0 ELSE cal, unit |-> unit, n |-> per],
                   sd |-> IF c[3] THEN [mob |-> mob, box |-> box, dt |-> dt, rank |-> rank] ELSE [none |-> TRUE]])

GenAddpAt(ups) ==
  \E up \in One(ups), nm \in One(Names0), kind \in One(Kinds0), dt \in One(Dt0), sh \in One(Shapes), big \in One(1..40),
     bsh \in One(BigShapes), plain \in One(BOOLEAN), desc \in One(0..6) :
    LET s1 == IF kind \in {"ss", "sscs"} THEN (IF big = 1 THEN bsh ELSE sh) ELSE IF sh = <<>> THEN <<2>> ELSE sh
        pl == IF kind = "ds" THEN TRUE ELSE IF kind = "ss" THEN plain ELSE FALSE
    IN Do([a |-> "Addp", up |-> up, nm |-> nm, kind |-> kind, dt |-> dt, shape |-> s1, plain |-> pl, desc |-> desc])
GenAddp == IF PsetKeys = {} THEN GenAddS ELSE GenAddpAt(PsetKeys)

GenAddL ==
  \E nm \in One(1..9), kind \in One(Kinds0), dt \in One(Dt0), sh \in One(Shapes), wide \in One(BOOLEAN), nd \in One(BOOLEAN),
     big \in One(1..25), bsh \in One(BigShapes) :
    LET key == "L" \o Str(nm)
        s1 == IF kind \in {"ss", "sscs"} THEN (IF big = 1 THEN bsh ELSE sh) ELSE IF sh = <<>> THEN <<3>> ELSE sh
    IN IF Has(db, key) THEN Skip
       ELSE Do([a |-> "AddL", key |-> key, kind |-> kind, dt |-> dt, fdt |-> IF wide THEN Wider[dt] ELSE dt, shape |-> s1,
                nd |-> nd /\ kind \in {"ss", "sscs"}])

----------------------------------------------------------------------------
Hows == {"each", "range"}
\* numbers of any magnitude: 1000 * h + l stands for h * 2^32 + l, 1000000 + l for 2^63 + l, 1100000 + l for 2^64 - 16 + l
Huge == {1000, 1001, 1003, 2002, 999005, 1000000, 1000004, 1100000, 1100015}
Indices(base) == IF RandomElement(1..5) = 1 THEN base \cup Huge ELSE base
Counts == IF RandomElement(1..4) = 1 THEN (0..6) \cup {1000, 1001, 2002, 3003, 5004} ELSE 0..6
GenIds ==
  IF PhenKeys = {} THEN GenAddP
  ELSE \E key \in One(PhenKeys), len \in Lens(0..4), how \in One(Hows) : \E ids \in Val(Seq1(len, 0..15)) :
         Do([a |-> "Ids", key |-> key, ids |-> ids, how |-> how])
GenIdsPut ==
  LET ks == {k \in PhenKeys : db.items[k].ids # <<>>} IN
  IF ks = {} THEN GenIds
  ELSE \E key \in One(ks), id \in One(0..15) : \E idx \in One(0..Len(db.items[key].ids) - 1) :
         Do([a |-> "IdsPut", key |-> key, idx |-> idx, id |-> id])
GenOt ==
  IF PsetKeys = {} THEN GenAddS
  ELSE \E key \in One(PsetKeys), f \in One({"asi", "aoid", "aoi"}), len \in Lens(0..4), how \in One(Hows) :
         \E vals \in Val(Seq1(len, IF f = "aoid" THEN 0..15 ELSE TLCEval(Indices(0..15)))) : Do([a |-> "Ot", key |-> key, f |-> f, vals |-> vals, how |-> how])
GenOtPut ==
  LET ks == {k \in PsetKeys : \E f \in {"asi", "aoid", "aoi"} : db.ot[db.items[k].oto][f] # <<>>} IN
  IF ks = {} THEN GenOt
  ELSE \E key \in One(ks) :
         LET t == db.ot[db.items[key].oto] IN
         \E f \in One({g \in {"asi", "aoid", "aoi"} : t[g] # <<>>}) : \E idx \in One(0..Len(t[f]) - 1) :
         \E v \in One(IF f = "aoid" THEN 0..15 ELSE TLCEval(Indices(0..15))) :
            Do([a |-> "OtPut", key |-> key, f |-> f, idx |-> idx, vals |-> <<v>>])

TimeKeys == {k \in PsetKeys : db.items[k].tdo # ""}
GenTd ==
  IF TimeKeys = {} THEN GenAddS
  ELSE \E key \in One(TimeKeys), f0 \in One({"items", "cnt"}), len \in Lens(0..4), how \in One(Hows) :
         LET td == db.td[db.items[key].tdo]
             f == IF td.type = "cell" THEN f0 ELSE "items"
             w == Width(td, f)
         IN \E vals \in Val(Seq1(len * w, IF f = "cnt" THEN TLCEval(Counts) ELSE 0..19)) :
              Do([a |-> "Td", key |-> key, f |-> f, vals |-> vals, how |-> how])
GenTdPut ==
  LET ks == {k \in TimeKeys : db.td[db.items[k].tdo].items # <<>>} IN
  IF ks = {} THEN GenTd
  ELSE \E key \in One(ks) :
         LET td == db.td[db.items[key].tdo] IN
         \E f \in One(IF td.cnt # <<>> THEN {"items", "cnt"} ELSE {"items"}) :
           LET w == Width(td, f) IN
           \E idx \in One(0..(Len(td[f]) \div w) - 1), vals \in Val(Seq1(w, IF f = "cnt" THEN TLCEval(Counts) ELSE 0..19)) :
             Do([a |-> "TdPut", key |-> key, f |-> f, idx |-> idx, vals |-> vals])

SpaceKeys == {k \in PsetKeys : db.items[k].sd # NoSd}
GenSd ==
  IF SpaceKeys = {} THEN GenAddS
  ELSE \E key \in One(SpaceKeys), len \in Lens(0..4), how \in One({"each", "range", "all"}), typed \in One(BOOLEAN) :
         \E tags \in Val(Tags(len)) :
           Do([a |-> "Sd", key |-> key, tags |-> tags, how |-> how, typed |-> typed, dt |-> db.items[key].sd.dt])
GenSdPut ==
  LET ks == {k \in SpaceKeys : db.items[k].sd.arr # <<>>} IN
  IF ks = {} THEN GenSd
  ELSE \E key \in One(ks), typed \in One(BOOLEAN) :
         LET l == Len(db.items[key].sd.arr) IN
         \E idx \in One(0..l - 1) : \E cnt \in One(1..(l - idx)) : \E tags \in Val(Tags(cnt)) :
           Do([a |-> "SdPut", key |-> key, idx |-> idx, tags |-> tags, typed |-> typed, dt |-> db.items[key].sd.dt])

GenPres ==
  IF SpaceKeys = {} THEN GenAddS
  ELSE IF PropKeys = {} THEN GenAddp
  ELSE \E key \in One(SpaceKeys), to \in One(PropKeys) : Do([a |-> "Pres", key |-> key, to |-> to])
GenDisc ==
  IF PropKeys = {} THEN GenAddp
  ELSE \E key \in One(PropKeys), x \in One(1..100), any \in One(PropKeys),
          a \in One({"TDisc", "SDisc", "SDisc"}), thru \in One(IF Py THEN {""} ELSE PropKeys \cup {""}) :
         LET good == {k \in PropKeys : db.items[k].kind \in {"ss", "sscs"}} IN
         \E to \in One(IF Focus = "M12d" /\ good # {} /\ x < 85 THEN good ELSE {any}) :
         \* discretize by a property that is reached through the discretization of another one
         LET via == IF thru # "" /\ db.items[thru].tdisc # "" THEN db.items[thru].tdisc
                    ELSE IF thru # "" /\ db.items[thru].sdisc # "" THEN db.items[thru].sdisc ELSE ""
         IN Do([a |-> a, key |-> key, to |-> IF via # "" THEN via ELSE to, thru |-> IF via # "" THEN thru ELSE ""])
FindFrom == {k \in PropKeys : TopPhen(db.items[db.items[k].up].up)}
FindTo == {k \in FindFrom :
             LET s == db.items[k].up
                 p == db.items[s].up
             IN ~(Has(db, PsetKey(p, TRUE, db.items[s].nm)) /\ Has(db, PsetKey(p, FALSE, db.items[s].nm)))}
GenFind ==
  IF FindFrom = {} \/ FindTo = {} THEN GenAddp
  ELSE \E key \in One(FindFrom), to \in One(FindTo) :
         LET s == db.items[to].up
             p == db.items[s].up
         IN Do([a |-> "Find", key |-> key, path |-> <<db.items[p].nm, db.items[s].nm, db.items[to].nm>>, to |-> to])

----------------------------------------------------------------------------
(* Values                                                                  *)
ND(key) == db.items[key].k = "loose" /\ db.items[key].kind \in {"ss", "sscs"} /\ db.items[key].val.nd
\* at most so many ids not in use, in an arbitrary order
Perm(start, step) == [i \in 1..16 |-> (start + step * i) % 16]
Fresh(used, max) ==
  {TLCEval(LET free == SelectSeq(Perm(RandomElement(0..15), RandomElement({1, 3, 5, 7, 9, 11, 13, 15})), LAMBDA x : x \notin used)
           IN SubSeq(free, 1, IF max < Len(free) THEN max ELSE Len(free)))}
ObjShapes(rank, len) ==
  TLCEval([i \in 1..len |-> [d \in 1..rank |-> IF rank = 1 /\ RandomElement(1..60) = 1 THEN 200000 ELSE RandomElement(1..4)]])
ArrTags(len) == TLCEval([i \in 1..len |-> [j \in 1..RandomElement(0..3) |-> RandomElement(0..126)]])

GenV ==
  IF ValKeys = {} THEN GenAddp
  ELSE \E key \in One(ValKeys) :
    LET it == db.items[key]
        v == it.val
        k == it.kind
    IN
    CASE k \in {"ss", "sscs"} ->
           \E len \in IF v.shape # <<>> /\ \E d \in DOMAIN v.shape : v.shape[d] > 60 THEN One(0..4) ELSE Lens(0..4), how \in One({"each", "range", "all"}), write \in One(BOOLEAN), put \in One(BOOLEAN) :
             IF put /\ v.arr # <<>>
             THEN \E idx \in One(0..Len(v.arr) - 1) : \E cnt \in One(1..(Len(v.arr) - idx)) : \E tags \in Val(Tags(cnt)) :
                    Do([a |-> "VWrite", key |-> key, idx |-> idx, tags |-> tags])
             ELSE IF ND(key) /\ ~write
             THEN Do([a |-> "VExpand", key |-> key, tags |-> [i \in 1..len |-> NoData], how |-> how, write |-> FALSE])
             ELSE \E tags \in Val(Tags(len)) :
                    Do([a |-> "VExpand", key |-> key, tags |-> tags, how |-> how, write |-> TRUE])
      [] k = "ssvs" ->
           \E c \in One(1..3), idx0 \in One(0..13), len \in Lens2(0..4), how \in One({"each", "range", "all"}) :
             IF Py \/ c = 1 \/ v.loc = <<>>
             THEN \E shs \in Val(ObjShapes(v.rank, 1)), tags \in Val(Tags(len)) :
                    Do([a |-> "LExpand", key |-> key, idx |-> idx0, shape |-> shs[1], tags |-> tags])
             ELSE \E idx \in One(DOMAIN v.loc) :
                    LET l == Len(v.loc[idx].arr) IN
                    IF c = 2 \/ l = 0
                    THEN \E tags \in Val(Tags(len)) : Do([a |-> "LGrow", key |-> key, idx |-> idx, tags |-> tags, how |-> how])
                    ELSE \E at \in One(0..l - 1) : \E cnt \in One(1..(l - at)) : \E tags \in Val(Tags(cnt)) :
                           Do([a |-> "LWrite", key |-> key, idx |-> idx, at |-> at, tags |-> tags])
      [] k = "ds" ->
           \E put \in One(BOOLEAN), len \in Lens2(1..4), how \in One({"each", "flat", "range"}), nd \in One(BOOLEAN) :
             IF put /\ v.obj # <<>>
             THEN \E id \in One(DOMAIN v.obj), tag \in One(0..126) : Do([a |-> "OWrite", key |-> key, id |-> id, tag |-> tag])
             ELSE \E ids \in Fresh(DOMAIN v.obj, len) : \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(Seq1(Len(ids), 0..126)) :
                    Do([a |-> "OExpand", key |-> key, ids |-> ids, shapes |-> shs,
                        tags |-> IF nd /\ ~Py /\ how = "each" /\ tags # <<>> THEN PutOne(tags, 0, NoData) ELSE tags, how |-> how])
      [] k = "dscs" ->
           \E c \in One(1..3), len \in Lens2(1..3), how \in One({"each", "range", "all"}) :
             IF c = 1 \/ v.obj = <<>>
             THEN \E ids \in Fresh(DOMAIN v.obj, IF Py THEN 1 ELSE len) : \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(ArrTags(Len(ids))) :
                    IF Py /\ ids = <<>> THEN Skip ELSE
                    Do([a |-> "CExpand", key |-> key, ids |-> ids, shapes |-> shs, tags |-> tags,
                        how |-> IF Py \/ how = "each" THEN "each" ELSE "range"])
             ELSE \E id \in One(DOMAIN v.obj) :
                    LET l == Len(v.obj[id].arr) IN
                    IF c = 2 \/ l = 0
                    THEN \E tags \in Val(Tags(len)) : Do([a |-> "CGrow", key |-> key, id |-> id, tags |-> tags, how |-> how])
                    ELSE \E at \in One(0..l - 1) : \E cnt \in One(1..(l - at)) : \E tags \in Val(Tags(cnt)) :
                           Do([a |-> "CWrite", key |-> key, id |-> id, at |-> at, tags |-> tags])
      [] k = "dsvs" ->
           \E c \in One(1..3), idx0 \in One(0..13), len \in Lens2(0..4), how \in One({"each", "flat", "range"}) :
             IF c = 1 \/ v.loc = <<>>
             THEN \E ids \in Fresh({}, IF Py THEN 1 ELSE len) : \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(Seq1(Len(ids), 0..126)) :
                    Do([a |-> "MExpand", key |-> key, idx |-> idx0, ids |-> ids, shapes |-> shs, tags |-> tags])
             ELSE \E idx \in One(DOMAIN v.loc) :
                    IF c = 2 \/ v.loc[idx] = <<>>
                    THEN \E ids \in Fresh(DOMAIN v.loc[idx], len) :
                         \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(Seq1(Len(ids), 0..126)) :
                           Do([a |-> "MGrow", key |-> key, idx |-> idx, ids |-> ids, shapes |-> shs, tags |-> tags, how |-> how])
                    ELSE \E id \in One(DOMAIN v.loc[idx]), tag \in One(0..126) :
                           Do([a |-> "MWrite", key |-> key, idx |-> idx, id |-> id, tag |-> tag])

\* refused value operations
BadKeys == {k \in ValKeys : LET it == db.items[k] IN
              \/ it.kind \in {"ssvs", "dsvs"} \/ it.kind \in {"ds", "dscs"}}
SomeBadIds(used) ==
  {TLCEval(LET fresh == SelectSeq(Perm(RandomElement(0..15), RandomElement({1, 3, 5})), LAMBDA x : x \notin used)
               f == SubSeq(fresh, 1, IF Len(fresh) < 2 THEN Len(fresh) ELSE 2)
               again == IF used = {} THEN (IF f = <<>> THEN 0 ELSE f[1]) ELSE RandomElement(used)
           IN IF RandomElement(1..2) = 1 THEN f \o <<again>> \o (IF used = {} THEN <<again>> ELSE <<>>)
              ELSE <<again>> \o f \o (IF used = {} THEN <<again>> ELSE <<>>))}
GenBadV ==
  IF BadKeys = {} THEN GenV
  ELSE \E key \in One(BadKeys) :
    LET it == db.items[key]
        v == it.val
        k == it.kind
    IN
    CASE k = "ssvs" ->
           \E idx \in One(0..13), c \in One(1..3) : \E tags \in Val(Tags(2)), shs \in Val(ObjShapes(v.rank, 1)) :
             IF Py \/ idx \in DOMAIN v.loc THEN Do([a |-> "LExpand", key |-> key, idx |-> idx, shape |-> shs[1], tags |-> tags])
             ELSE IF c = 1 THEN Do([a |-> "LGrow", key |-> key, idx |-> idx, tags |-> tags, how |-> "each"])
             ELSE Do([a |-> "LWrite", key |-> key, idx |-> idx, at |-> 0, tags |-> tags])
      [] k = "ds" ->
           \E c \in One(1..2), id \in One(0..15), how \in One({"flat", "range"}) : \E ids \in SomeBadIds(DOMAIN v.obj) :
             \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(Seq1(Len(ids), 0..126)) :
             IF c = 1 /\ id \notin DOMAIN v.obj THEN Do([a |-> "OWrite", key |-> key, id |-> id, tag |-> 1])
             ELSE IF Len(ids) = 1
             THEN Do([a |-> "OExpand", key |-> key, ids |-> ids, shapes |-> shs, tags |-> tags, how |-> "each"])
             ELSE Do([a |-> "OExpand", key |-> key, ids |-> ids, shapes |-> shs, tags |-> tags, how |-> how])
      [] k = "dscs" ->
           \E c \in One(1..3), id \in One(0..15) : \E ids0 \in SomeBadIds(DOMAIN v.obj) : \E ids \in {OneId(ids0)} :
             \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(ArrTags(Len(ids))) :
             IF c = 1 /\ id \notin DOMAIN v.obj THEN Do([a |-> "CGrow", key |-> key, id |-> id, tags |-> <<1>>, how |-> "each"])
             ELSE IF c = 2 /\ id \notin DOMAIN v.obj THEN Do([a |-> "CWrite", key |-> key, id |-> id, at |-> 0, tags |-> <<1>>])
             ELSE Do([a |-> "CExpand", key |-> key, ids |-> ids, shapes |-> shs, tags |-> tags,
                      how |-> IF Len(ids) = 1 THEN "each" ELSE "range"])
      [] k = "dsvs" ->
           \E idx \in One(0..13), c \in One(1..3), id \in One(0..15), how \in One({"flat", "range"}) :
             IF idx \notin DOMAIN v.loc
             THEN IF c = 1 THEN Do([a |-> "MWrite", key |-> key, idx |-> idx, id |-> id, tag |-> 1])
                  ELSE \E ids0 \in SomeBadIds({}) : \E ids \in {IF c = 2 THEN ids0 ELSE OneId(ids0)} : \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(Seq1(Len(ids), 0..126)) :
                    IF c = 2 THEN Do([a |-> "MGrow", key |-> key, idx |-> idx, ids |-> ids, shapes |-> shs, tags |-> tags, how |-> how])
                    ELSE Do([a |-> "MExpand", key |-> key, idx |-> idx, ids |-> ids, shapes |-> shs, tags |-> tags])
             ELSE \E ids0 \in SomeBadIds(DOMAIN v.loc[idx]) : \E ids \in {IF c = 2 THEN ids0 ELSE OneId(ids0)} :
                  \E shs \in Val(ObjShapes(v.rank, Len(ids))), tags \in Val(Seq1(Len(ids), 0..126)) :
                    IF c = 1 THEN Do([a |-> "MExpand", key |-> key, idx |-> idx, ids |-> ids, shapes |-> shs, tags |-> tags])
                    ELSE IF c = 2 THEN Do([a |-> "MGrow", key |-> key, idx |-> idx, ids |-> ids, shapes |-> shs, tags |-> tags, how |-> how])
                    ELSE IF id \notin DOMAIN v.loc[idx] THEN Do([a |-> "MWrite", key |-> key, idx |-> idx, id |-> id, tag |-> 1])
                    ELSE Skip

----------------------------------------------------------------------------
GenReopen == \E mode \in One({"rw", "rw", "ro"}) : Do([a |-> "Reopen", mode |-> mode])

\* things that are not there
GenBad ==
  \E c \in One(1..3), nm \in One(Names0), nm2 \in One(Names0) :
    LET p == "P" \o Str(nm2)
        s == p \o ".S" \o Str(nm)
    IN CASE c = 1 /\ ~Has(db, "U" \o Str(nm2)) -> Do([a |-> "AddP", up |-> "U" \o Str(nm2), nm |-> nm, desc |-> 1])
         [] c = 2 /\ ~Has(db, p) -> Do([a |-> "AddS", up |-> p, coll |-> FALSE, nm |-> nm, td |-> "none", tdsrc |-> "", ot |-> "own",
                                        otsrc |-> "", type |-> "point", clock |-> Clocks(0), sd |-> [none |-> TRUE]])
         [] c = 3 /\ ~Has(db, s) -> Do([a |-> "Addp", up |-> s, nm |-> nm, kind |-> "ss", dt |-> "u8", shape |-> <<>>,
                                        plain |-> TRUE, desc |-> 0])
         [] OTHER -> Skip

\* add something that is there already, maybe of another kind
GenAgain ==
  LET ks == DOMAIN db.items \ {"D"} IN
  IF ks = {} THEN GenAddP
  ELSE \E key \in One(ks), kind \in One(Kinds), dt \in One(Dt0) :
    LET r == db.items[key] IN
    CASE r.k = "uni" -> Do([a |-> "AddU", nm |-> r.nm])
      [] r.k = "phen" -> Do([a |-> "AddP", up |-> r.up, nm |-> r.nm, desc |-> 2])
      [] r.k \in {"pset", "cpset"} ->
           Do([a |-> "AddS", up |-> r.up, coll |-> r.k = "cpset", nm |-> r.nm, td |-> IF Py THEN "none" ELSE "own", tdsrc |-> "", ot |-> "own",
               otsrc |-> "", type |-> "box", clock |-> Clocks(0), sd |-> [none |-> TRUE]])
      [] r.k = "prop" ->
           Do([a |-> "Addp", up |-> r.up, nm |-> r.nm, kind |-> kind, dt |-> dt, shape |-> <<2>>, plain |-> kind = "ds", desc |-> 3])
      [] OTHER -> Skip

----------------------------------------------------------------------------
(* Towards a consistent dataset, one operation at a time                   *)
BadSets == {sk \in PsetKeys : ~SetValid(db, sk)}
Shares(sk, f) == {s \in PsetKeys : db.items[s][f] = db.items[sk][f]}
Phen(sk) == db.items[sk].up
FreeId(used) == CHOOSE i \in 0..15 : i \notin used /\ \A j \in 0..15 : j \notin used => i <= j

FixValue(ids, t, pk) ==
  LET p == db.items[pk]
      v == p.val
      m == t.aoid
      z(sh) == IF sh = <<>> THEN <<1>> ELSE sh
      Missing(used, want) == SelectSeq(want, LAMBDA x : x \notin used)
      shp == [d \in 1..(IF p.kind \in {"ss", "sscs"} THEN 0 ELSE v.rank) |-> 2]
  IN
  CASE p.kind = "ss" /\ Len(v.arr) < Len(ids) ->
         Do([a |-> "VExpand", key |-> pk, tags |-> [i \in 1..(Len(ids) - Len(v.arr)) |-> i], how |-> "range", write |-> TRUE])
    [] p.kind = "sscs" /\ Len(v.arr) < Len(m) ->
         Do([a |-> "VExpand", key |-> pk, tags |-> [i \in 1..(Len(m) - Len(v.arr)) |-> i], how |-> "range", write |-> TRUE])
    [] p.kind = "ds" /\ ids # <<999>> /\ Missing(DOMAIN v.obj, ids) # <<>> ->
         LET w0 == Missing(DOMAIN v.obj, ids)
             other == RandomElement(1..5) = 1 /\ 0..15 \ (DOMAIN v.obj \cup Range(ids)) # {}
         IN \E w \in Val(IF other THEN PutOne(w0, 0, FreeId(DOMAIN v.obj \cup Range(ids))) ELSE w0) :
         Do([a |-> "OExpand", key |-> pk, ids |-> w, shapes |-> [i \in 1..Len(w) |-> shp], tags |-> [i \in 1..Len(w) |-> i], how |-> "range"])
    [] p.kind = "dscs" /\ Range(m) \ DOMAIN v.obj # {} ->
         LET id0 == CHOOSE x \in Range(m) \ DOMAIN v.obj : TRUE
             other == RandomElement(1..5) = 1 /\ 0..15 \ (DOMAIN v.obj \cup Range(m)) # {}
         IN \E id \in Val(IF other THEN FreeId(DOMAIN v.obj \cup Range(m)) ELSE id0) :
         Do([a |-> "CExpand", key |-> pk, ids |-> <<id>>, shapes |-> <<shp>>, tags |-> <<<<1>>>>, how |-> "each"])
    [] p.kind = "dscs" /\ \E i \in 1..Len(m) : i <= Len(t.aoi) /\ m[i] \in DOMAIN v.obj /\ t.aoi[i] >= Len(v.obj[m[i]].arr) ->
         LET i == CHOOSE i \in 1..Len(m) : i <= Len(t.aoi) /\ m[i] \in DOMAIN v.obj /\ t.aoi[i] >= Len(v.obj[m[i]].arr) IN
         IF t.aoi[i] >= 1000 THEN Do([a |-> "OtPut", key |-> p.up, f |-> "aoi", idx |-> i - 1, vals |-> <<0>>])
         ELSE Do([a |-> "CGrow", key |-> pk, id |-> m[i], tags |-> [j \in 1..(t.aoi[i] + 1 - Len(v.obj[m[i]].arr)) |-> j], how |-> "range"])
    [] p.kind = "ssvs" /\ \E i \in 1..Len(t.asi) : (i - 1) \notin DOMAIN v.loc \/ Len(v.loc[i-1].arr) < SetEnd(t.asi, i, Len(m)) - t.asi[i] ->
         LET i == CHOOSE i \in 1..Len(t.asi) : (i - 1) \notin DOMAIN v.loc \/ Len(v.loc[i-1].arr) < SetEnd(t.asi, i, Len(m)) - t.asi[i]
             sz == SetEnd(t.asi, i, Len(m)) - t.asi[i]
         IN IF (i - 1) \notin DOMAIN v.loc
            THEN Do([a |-> "LExpand", key |-> pk, idx |-> i - 1, shape |-> shp, tags |-> [j \in 1..sz |-> j]])
            ELSE Do([a |-> "LGrow", key |-> pk, idx |-> i - 1, tags |-> [j \in 1..(sz - Len(v.loc[i-1].arr)) |-> j], how |-> "range"])
    [] p.kind = "dsvs" /\ Cardinality(DOMAIN v.loc) < Len(t.asi) ->
         LET i == CHOOSE i \in 1..Len(t.asi) : (i - 1) \notin DOMAIN v.loc IN
         Do([a |-> "MExpand", key |-> pk, idx |-> i - 1, ids |-> <<0>>, shapes |-> <<shp>>, tags |-> <<3>>])
    [] OTHER -> Skip

FixDisc(pk) ==
  LET p == db.items[pk] IN
  IF p.sdisc = "" THEN Skip
  ELSE LET t == db.items[p.sdisc]
           want == IF p.kind \in {"ds", "dscs", "sscs"} THEN NrGrids(db, pk, p.sdisc) ELSE 0
       IN IF t.kind = "ss" /\ Len(t.val.arr) < want
          THEN Do([a |-> "VExpand", key |-> p.sdisc, tags |-> [i \in 1..(want - Len(t.val.arr)) |-> i], how |-> "range", write |-> TRUE])
          ELSE Skip

FixTime(sk, t) ==
  LET own == db.items[sk].tdo
      td == db.td[own]
      last == IF td.items = <<>> THEN 0 ELSE td.items[Len(td.items)]
      more(len) == [i \in 1..len |-> IF last + (i \div 2) > 19 THEN 19 ELSE last + (i \div 2)]
      nr == Len(td.items) \div Width(td, "items")
      sum == SumSeq(td.cnt)
  IN IF ~Increasing(td.items)
     THEN LET i == CHOOSE i \in 1..Len(td.items)-1 : td.items[i] > td.items[i+1]
              w == Width(td, "items")
              b == (i \div w)  \* item holding the second coordinate
          IN Do([a |-> "TdPut", key |-> sk, f |-> "items", idx |-> b,
                 vals |-> [j \in 1..w |-> IF b * w + j <= i THEN td.items[b * w + j]
                                          ELSE td.items[i]]])
     ELSE IF \E i \in 1..Len(td.cnt) : td.cnt[i] >= 1000
     THEN LET i == CHOOSE i \in 1..Len(td.cnt) : td.cnt[i] >= 1000 IN
          Do([a |-> "TdPut", key |-> sk, f |-> "cnt", idx |-> i - 1, vals |-> <<td.cnt[i] % 1000>>])
     ELSE IF td.type \in {"point", "box"} /\ nr < Len(t.asi)
     THEN Do([a |-> "Td", key |-> sk, f |-> "items", vals |-> more((Len(t.asi) - nr) * Width(td, "items")), how |-> "range"])
     ELSE IF td.type = "cell" /\ nr < Len(td.cnt)
     THEN Do([a |-> "Td", key |-> sk, f |-> "items", vals |-> more((Len(td.cnt) - nr) * 2), how |-> "range"])
     ELSE IF td.type = "cell" /\ Len(td.cnt) < nr
     THEN \E more2 \in One({0, IF sum < Len(t.asi) THEN Len(t.asi) - sum ELSE 0}) :
            Do([a |-> "Td", key |-> sk, f |-> "cnt", vals |-> <<more2>>, how |-> "range"])
     ELSE IF td.type = "cell" /\ sum < Len(t.asi) /\ td.cnt # <<>>
     THEN Do([a |-> "TdPut", key |-> sk, f |-> "cnt", idx |-> 0, vals |-> <<td.cnt[1] + Len(t.asi) - sum>>])
     ELSE IF td.type = "cell" /\ sum < Len(t.asi)
     THEN Do([a |-> "Td", key |-> sk, f |-> "cnt", vals |-> <<Len(t.asi)>>, how |-> "range"])
     ELSE \* more time than active sets: empty sets
          Do([a |-> "Ot", key |-> sk, f |-> "asi", vals |-> [i \in 1..((IF td.type = "cell" THEN sum ELSE nr) - Len(t.asi)) |-> Len(t.aoid)], how |-> "range"])

FixTracker(sk, ids, t) ==
  LET coll == db.items[sk].k = "cpset" IN
  IF ~coll /\ ~Unique(ids)
  THEN LET j == CHOOSE j \in 1..Len(ids) : \E i \in 1..j-1 : ids[i] = ids[j] IN
       Do([a |-> "IdsPut", key |-> Phen(sk), idx |-> j - 1, id |-> FreeId(Range(ids))])
  ELSE IF t.asi = <<>> THEN Do([a |-> "Ot", key |-> sk, f |-> "asi", vals |-> <<0>>, how |-> "range"])
  ELSE IF \E i \in 1..Len(t.asi) : t.asi[i] > (IF i = Len(t.asi) THEN Len(t.aoid) ELSE t.asi[i + 1])
  THEN LET i == CHOOSE i \in 1..Len(t.asi) : t.asi[i] > (IF i = Len(t.asi) THEN Len(t.aoid) ELSE t.asi[i + 1])
       IN Do([a |-> "OtPut", key |-> sk, f |-> "asi", idx |-> i - 1, vals |-> <<IF i = Len(t.asi) THEN Len(t.aoid) ELSE t.asi[i + 1]>>])
  ELSE IF Range(t.aoid) \ Range(ids) # {} /\ ids # <<>> /\ ~coll
  THEN Do([a |-> "Ids", key |-> Phen(sk), ids |-> <<CHOOSE x \in Range(t.aoid) : x \notin Range(ids)>>, how |-> "range"])
  ELSE IF t.aoi # <<>> /\ \E i \in 1..Len(t.asi) : t.asi[i] > Len(t.aoi)
  THEN Do([a |-> "Ot", key |-> sk, f |-> "aoi", vals |-> [i \in 1..(Len(t.aoid) - Len(t.aoi)) |-> 0], how |-> "range"])
  ELSE LET dup == {j \in 1..Len(t.aoid) : \E i \in 1..j-1 : t.aoid[i] = t.aoid[j] /\ \A q \in 1..Len(t.asi) : ~(i <= t.asi[q] /\ t.asi[q] < j)}
       IN IF coll /\ Cardinality(Range(t.aoid)) > 1
          THEN LET j == CHOOSE j \in 1..Len(t.aoid) : t.aoid[j] # t.aoid[1] IN
               Do([a |-> "OtPut", key |-> sk, f |-> "aoid", idx |-> j - 1, vals |-> <<t.aoid[1]>>])
          ELSE IF dup # {} /\ Range(ids) \ Range(t.aoid) # {}
          THEN Do([a |-> "OtPut", key |-> sk, f |-> "aoid", idx |-> (CHOOSE j \in dup : TRUE) - 1, vals |-> <<CHOOSE x \in Range(ids) : x \notin Range(t.aoid)>>])
          ELSE IF dup # {} /\ ids = <<>>
          THEN Do([a |-> "OtPut", key |-> sk, f |-> "aoid", idx |-> (CHOOSE j \in dup : TRUE) - 1, vals |-> <<FreeId(Range(t.aoid))>>])
          ELSE Skip

\* more of what belongs together: a location in time, or an object
Extend(sk) ==
  LET s == db.items[sk]
      t == db.ot[s.oto]
      ids == db.items[s.up].ids
  IN \E c \in One(1..4), len \in One(1..2) :
       CASE c = 1 -> IF s.k = "cpset" \/ Len(ids) > 6 THEN Skip
                     ELSE \E f \in Fresh(Range(ids) \cup Range(t.aoid), len) : Do([a |-> "Ids", key |-> s.up, ids |-> f, how |-> "range"])
         [] c = 2 -> IF Len(t.asi) > 5 THEN Skip ELSE Do([a |-> "Ot", key |-> sk, f |-> "asi", vals |-> <<Len(t.aoid)>>, how |-> "range"])
         [] c = 3 -> IF Len(t.aoid) > 8 \/ t.asi = <<>> THEN Skip
                     ELSE LET lastset == SubSeq(t.aoid, t.asi[Len(t.asi)] + 1, Len(t.aoid))
                              free == IF s.k = "cpset" THEN (IF t.aoid = <<>> THEN {4} ELSE IF lastset = <<>> THEN {t.aoid[1]} ELSE {})
                                      ELSE (IF ids = <<>> THEN 0..15 ELSE Range(ids)) \ Range(lastset)
                          IN IF free = {} THEN Skip
                             ELSE \E id \in One(free) : Do([a |-> "Ot", key |-> sk, f |-> "aoid", vals |-> <<id>>, how |-> "range"])
         [] c = 4 -> IF Len(t.aoi) >= Len(t.aoid) THEN Skip
                     ELSE \* the how manieth time the object is active
                          LET i == Len(t.aoi) + 1 IN
                          Do([a |-> "Ot", key |-> sk, f |-> "aoi", how |-> "range",
                              vals |-> <<Cardinality({j \in 1..i-1 : t.aoid[j] = t.aoid[i]})>>])

GenFix ==
  IF PsetKeys = {} THEN GenAddS
  ELSE IF BadSets = {} THEN \E sk \in One(PsetKeys) : Extend(sk)
  ELSE \E sk \in One(BadSets) :
    LET s == db.items[sk]
        t == db.ot[s.oto]
        ids == IF s.k = "cpset" THEN CollIds(t) ELSE db.items[s.up].ids
        m == IF s.sd = NoSd THEN 0 ELSE (IF s.sd.mob THEN Len(t.aoid) ELSE Len(ids))
    IN IF ~TrackerValid(ids, t) THEN FixTracker(sk, ids, t)
       ELSE IF s.tdo # "" /\ ~TimeValid(db.td[s.tdo], t) THEN FixTime(sk, t)
       ELSE IF s.sd # NoSd /\ Len(s.sd.arr) < m
       THEN Do([a |-> "Sd", key |-> sk, tags |-> [i \in 1..(m - Len(s.sd.arr)) |-> i], how |-> "range", typed |-> FALSE, dt |-> s.sd.dt])
       ELSE IF s.k = "cpset" /\ ~CollValid(db, sk)
       THEN IF Len(t.asi) > Len(t.aoid)
            THEN Do([a |-> "Ot", key |-> sk, f |-> "aoid", vals |-> <<IF t.aoid = <<>> THEN 5 ELSE t.aoid[1]>>, how |-> "range"])
            ELSE Do([a |-> "Ot", key |-> sk, f |-> "asi", vals |-> <<Len(t.aoid)>>, how |-> "range"])
       ELSE LET badp == {pk \in Props(db, sk) : ~ValueValid(ids, t, db.items[pk])}
                badd == {pk \in Props(db, sk) : ~DiscValid(db, pk)}
                needi == {pk \in badp : db.items[pk].kind = "dscs" /\ Len(t.aoi) < Len(t.aoid)}
            IN IF needi # {}
               THEN Do([a |-> "Ot", key |-> sk, f |-> "aoi", how |-> "range",
                        vals |-> [k \in 1..(Len(t.aoid) - Len(t.aoi)) |->
                          Cardinality({j \in 1..(Len(t.aoi) + k - 1) : t.aoid[j] = t.aoid[Len(t.aoi) + k]})]])
               ELSE IF badp # {} THEN \E pk \in One(badp) : FixValue(ids, t, pk)
               ELSE IF badd # {} THEN \E pk \in One(badd) : FixDisc(pk)
               ELSE Skip

\* break one thing
CellKeys == {k \in TimeKeys : db.td[db.items[k].tdo].cnt # <<>>}
\* property-sets of which the active objects matter to nothing else
Lonely == {k \in PsetKeys : /\ \A pk \in Props(db, k) : db.items[pk].kind \in {"ss", "ds"}
                            /\ db.items[k].sd = NoSd \/ ~db.items[k].sd.mob}
DiscOther == {p \in {k \in PropKeys : db.items[k].kind \in {"ds", "dscs", "sscs"} /\ db.items[k].sdisc = ""} \X
                   {k \in PropKeys : db.items[k].kind = "ss" /\ db.items[k].val.dt \in Unsigned} :
                Len(db.items[p[2]].val.arr) # NrGrids(db, p[1], p[2])}
GenFault ==
  IF PsetKeys = {} THEN GenAddS
  ELSE \E c \in One(IF ~Valid(db) THEN 1..9 ELSE 1..9 \cup (10..13) \cup (IF DiscOther # {} THEN 14..17 ELSE {})) :
    CASE c = 1 -> GenIdsPut
      \* active objects, though nothing is active at any time
      [] c \in {10, 11} -> LET ks == {k \in Lonely : LET t == db.ot[db.items[k].oto] IN t.asi = <<>> /\ t.aoid = <<>> /\ t.aoi = <<>>} IN
                  IF ks = {} THEN GenV
                  ELSE \E sk \in One(ks) :
                    LET s == db.items[sk]
                        ids == IF s.k = "cpset" THEN <<>> ELSE db.items[s.up].ids
                    IN \E x \in One(IF ids = <<>> THEN 0..6 ELSE Range(ids)), f \in One({"aoid", "aoi"}) :
                         DoV([a |-> "Ot", key |-> sk, f |-> f, vals |-> <<IF f = "aoid" THEN x ELSE 0>>, how |-> "range"])
      \* too few active object indices
      [] c = 12 -> LET ks == {k \in Lonely : LET t == db.ot[db.items[k].oto] IN t.aoi = <<>> /\ t.asi # <<>> /\ t.asi[Len(t.asi)] \in 2..100} IN
                  IF ks = {} THEN Skip
                  ELSE \E sk \in One(ks) : DoV([a |-> "Ot", key |-> sk, f |-> "aoi", vals |-> <<0>>, how |-> "range"])
      \* the only active set starts beyond the active object indices
      [] c = 13 -> LET ks == {k \in Lonely : /\ db.items[k].k # "cpset" /\ db.items[k].tdo = "" /\ Len(db.items[db.items[k].up].ids) >= 2
                                            /\ LET t == db.ot[db.items[k].oto] IN t.asi = <<>> /\ t.aoid = <<>> /\ t.aoi = <<>>} IN
                  IF ks = {} THEN GenV
                  ELSE \E sk \in One(ks) :
                    LET ids == db.items[db.items[sk].up].ids
                        Op(f, vals) == [a |-> "Ot", key |-> sk, f |-> f, vals |-> vals, how |-> "range"]
                    IN DoVs(<<Op("asi", <<2>>), Op("aoid", <<ids[1], ids[2]>>), Op("aoi", <<0>>)>>)
      \* discretized by a property of other objects
      [] c \in 14..17 -> LET ps == {p \in DiscOther : p[1] # p[2]} IN
                  IF ps = {} THEN Skip
                  ELSE \E p \in One(ps) : DoV([a |-> "SDisc", key |-> p[1], to |-> p[2], thru |-> ""])
      [] c = 2 -> \E sk \in One(PsetKeys), f \in One({"asi", "aoid", "aoi"}) : \E x \in One(IF f = "aoid" THEN 0..6 ELSE TLCEval(Indices(0..6))) :
                    Do([a |-> "Ot", key |-> sk, f |-> f, vals |-> <<x>>, how |-> "range"])
      [] c = 3 -> LET ks == {k \in PsetKeys : \E f \in {"asi", "aoid", "aoi"} : db.ot[db.items[k].oto][f] # <<>>} IN
                  IF ks = {} THEN Skip
                  ELSE \E key \in One(ks) :
                    LET t == db.ot[db.items[key].oto] IN
                    \E f \in One({g \in {"asi", "aoid", "aoi"} : t[g] # <<>>}) : \E idx \in One(0..Len(t[f]) - 1) :
                    \E v \in One(IF f = "aoid" THEN 0..5 ELSE TLCEval(Indices(0..5))) :
                      Do([a |-> "OtPut", key |-> key, f |-> f, idx |-> idx, vals |-> <<v>>])
      [] c = 5 /\ CellKeys # {} ->
           \E key \in One(CellKeys) : \E i \in One(1..Len(db.td[db.items[key].tdo].cnt)) :
             LET k == db.td[db.items[key].tdo].cnt[i]
             IN Do([a |-> "TdPut", key |-> key, f |-> "cnt", idx |-> i - 1, vals |-> <<IF k < 1000 THEN k + 1000 ELSE k % 1000>>])
      [] c \in {4, 5} -> IF TimeKeys = {} THEN Skip ELSE GenTdPut
      [] c = 6 -> IF TimeKeys = {} THEN Skip
                  ELSE \E key \in One(TimeKeys) :
                    LET td == db.td[db.items[key].tdo] IN
                    Do([a |-> "Td", key |-> key, f |-> "items", vals |-> [i \in 1..Width(td, "items") |-> 19], how |-> "range"])
      [] c = 7 -> IF SpaceKeys = {} THEN Skip
                  ELSE \E key \in One(SpaceKeys) :
                    Do([a |-> "Sd", key |-> key, tags |-> <<7>>, how |-> "range", typed |-> FALSE, dt |-> db.items[key].sd.dt])
      [] OTHER -> GenV

----------------------------------------------------------------------------
Init == /\ n = 0
        /\ \E desc \in 0..1 : /\ hist = <<[a |-> "Create", desc |-> desc]>>
                              /\ db = Apply(EmptyDb, [a |-> "Create", desc |-> desc]).db

Step(k) ==
  CASE k = "AddU" -> GenAddU [] k = "AddP" -> GenAddP [] k = "AddS" -> GenAddS [] k = "Addp" -> GenAddp [] k = "AddL" -> GenAddL
    [] k = "Ids" -> GenIds [] k = "IdsPut" -> GenIdsPut [] k = "Ot" -> GenOt [] k = "OtPut" -> GenOtPut
    [] k = "Td" -> GenTd [] k = "TdPut" -> GenTdPut [] k = "Sd" -> GenSd [] k = "SdPut" -> GenSdPut
    [] k = "Pres" -> GenPres [] k = "Disc" -> GenDisc [] k = "Find" -> GenFind
    [] k = "V" -> GenV [] k = "BadV" -> GenBadV [] k = "Reopen" -> GenReopen [] k = "Bad" -> GenBad [] k = "Again" -> GenAgain
    [] k = "Check" -> (\E how \in One({"live", "path", "file"}) : hist' = Append(hist, [a |-> "Validate", how |-> how]) /\ n' = n + 1 /\ UNCHANGED db)
    [] k = "Fix" -> GenFix [] k = "Fault" -> GenFault

\* validate where it matters: what changed between consistent and inconsistent, and now and then
WithValidate ==
  LET now == Valid(db)
      last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].a
      \* after every operation of a dataset that is consistent, or was so
  IN last # "Validate" /\ (now \/ RandomElement(1..2) = 1)

Next ==
  /\ n < Depth
  /\ IF Validity /\ n > 6 /\ WithValidate
     THEN \E how \in One({"live", "path", "file"}) : hist' = Append(hist, [a |-> "Validate", how |-> how]) /\ UNCHANGED <<db, n>>
     ELSE IF db.rw = FALSE /\ Focus # "M03" /\ RandomElement(1..2) = 1
     THEN Do([a |-> "Reopen", mode |-> "rw"])
     ELSE \E k \in Val(Deck[RandomElement(1..Len(Deck))]) : Step(k)

Emit == IF n = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
