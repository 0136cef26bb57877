---------------------------- MODULE LueDataValid ----------------------------
(***************************************************************************)
(* A dataset is valid if all of its parts are consistent with each other:  *)
(* identity, object trackers, domains, values and discretizations.         *)
(***************************************************************************)
EXTENDS LueData

Props(db, sk) == Children(db, sk, "prop")
Unsigned == {"u8", "u16", "u32", "u64"}
InCollection(db, pk) == db.items[db.items[pk].up].k = "cpset"

\* number of object arrays a constant regular grid must be described for
NrGrids(db, pk, to) ==
  IF InCollection(db, to) \/ db.items[pk].kind = "sscs" THEN 1 ELSE Cardinality(DOMAIN db.items[pk].val.obj)
ConstantGrid(db, pk, to) ==
  /\ db.items[to].kind = "ss"
  /\ Len(db.items[to].val.arr) = NrGrids(db, pk, to)
  /\ db.items[to].val.dt \in Unsigned

DiscValid(db, pk) ==
  LET p == db.items[pk] IN
  /\ (p.sdisc # "" /\ p.kind \in {"ds", "dscs"}) => ConstantGrid(db, pk, p.sdisc)
  /\ (p.sdisc # "" /\ p.kind = "sscs" /\ db.items[p.sdisc].kind \in {"ss", "ds"}) => ConstantGrid(db, pk, p.sdisc)
  /\ (p.tdisc # "" /\ p.kind = "ssvs") => db.items[p.tdisc].kind = "sscs"

PresValid(db, s) ==
  s.sd.pres # "" =>
    /\ s.sd.box
    /\ LET pp == db.items[s.sd.pres]
           ps == db.items[pp.up]
       IN (~s.sd.mob /\ pp.kind \notin {"ss", "ds"} /\ ps.tdo # "" /\ s.tdo # "") => ps.tdo = s.tdo

PsetValid(db, sk, ids) ==
  LET s == db.items[sk]
      t == db.ot[s.oto]
  IN /\ TrackerValid(ids, t)
     /\ s.tdo # "" => TimeValid(db.td[s.tdo], t)
     /\ s.sd # NoSd => (IF s.sd.mob THEN Len(s.sd.arr) = Len(t.aoid) ELSE Len(s.sd.arr) = Len(ids))
     /\ s.sd # NoSd => PresValid(db, s)
     /\ \A pk \in Props(db, sk) : ValueValid(ids, t, db.items[pk]) /\ DiscValid(db, pk)

\* the single object of a collection property-set is the collection; it need not be identified
CollIds(t) == IF t.aoid = <<>> THEN <<999>> ELSE <<t.aoid[1]>>
CollValid(db, sk) ==
  LET t == db.ot[db.items[sk].oto]
  IN (\E pk \in Props(db, sk) : db.items[pk].kind \in {"sscs", "ssvs", "dscs"}) => Len(t.asi) = Len(t.aoid)

SetValid(db, sk) ==
  IF db.items[sk].k = "cpset" THEN PsetValid(db, sk, CollIds(db.ot[db.items[sk].oto])) /\ CollValid(db, sk)
  ELSE PsetValid(db, sk, db.items[db.items[sk].up].ids)

Valid(db) == \A sk \in Keys(db, "pset") \cup Keys(db, "cpset") : SetValid(db, sk)
=============================================================================
