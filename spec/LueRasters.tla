----------------------------- MODULE LueRasters -----------------------------
(* Raster datasets in files, opened or not, with bands, with cells. Bands can be read and
   written by block, by window, and as a whole. A dataset has a type of values, a no-data value and a transformation. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
B == INSTANCE LueBlocks

Files == 0..2
Junk == 3     \* a file that isn't a raster
Absent == [shape |-> <<>>, open |-> "-"]
Empty == [f \in Files |-> Absent]
There(st) == {f \in Files : st[f] # Absent}
Opened(st) == {f \in Files : st[f].open # "-"}

NoGeo == [size |-> <<0, 0>>, west |-> 0, north |-> 0, rot |-> 0]
\* oriented to the north, square cells
Supported(geo) == geo.size[1] > 0 /\ geo.size[1] = geo.size[2] /\ geo.rot = 0
BlockShape(x) == IF x.tile[1] = 0 THEN <<x.tile[2], x.shape[2]>> ELSE x.tile
Types == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"}
TypeName == [u8 |-> "GDT_Byte", i8 |-> "GDT_Int8", u16 |-> "GDT_UInt16", i16 |-> "GDT_Int16", u32 |-> "GDT_UInt32", i32 |-> "GDT_Int32",
             u64 |-> "GDT_UInt64", i64 |-> "GDT_Int64", f32 |-> "GDT_Float32", f64 |-> "GDT_Float64"]
Drivers == [tif |-> "GTiff", hdf4 |-> "HDF4", h4 |-> "HDF4", hdf5 |-> "HDF5", h5 |-> "HDF5", nc |-> "netCDF", map |-> "PCRaster", csf |-> "PCRaster", img |-> "HFA"]

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
\* cells in row-major order
NewBand(shape, fill) == [k \in 1..shape[1] * shape[2] |-> fill]
About(x) == [shape |-> x.shape, dt |-> x.dt, bands |-> Len(x.bands), block |-> BlockShape(x), nd |-> x.nd,
             geo |-> IF Supported(x.geo) THEN x.geo ELSE NoGeo, named |-> x.dt]
Contents(x) == x.bands
HasBand(x, b) == b \in DOMAIN x.bands
\* the window of the valid cells of a block
Window(x, at) ==
  LET v == B!ValidShape(x.shape, BlockShape(x), at) IN
  [start |-> [d \in 1..2 |-> at[d] * BlockShape(x)[d]], count |-> v]
HasBlock(x, at) == LET s == B!ShapeInBlocks(x.shape, BlockShape(x)) IN \A d \in 1..2 : at[d] < s[d]
WindowOf(op, x) ==
  CASE op.a \in {"WriteBlock", "ReadBlock"} -> Window(x, op.at)
    [] op.a \in {"Write", "Read"} -> [start |-> op.start, count |-> op.count]
    [] op.a \in {"WriteAll", "ReadAll"} -> [start |-> <<0, 0>>, count |-> x.shape]
Inside(x, w) == \A d \in 1..2 : w.start[d] + w.count[d] <= x.shape[d]
\* the values base, base + 7, ... modulo 101 in a window
Written(x, cells, w, base) ==
  [k \in DOMAIN cells |->
     LET row == (k - 1) \div x.shape[2] - w.start[1]  col == ((k - 1) % x.shape[2]) - w.start[2] IN
     IF row >= 0 /\ row < w.count[1] /\ col >= 0 /\ col < w.count[2] THEN (base + 7 * (row * w.count[2] + col)) % 101 ELSE cells[k]]
Values(x, cells, w) ==
  [k \in 1..w.count[1] * w.count[2] |-> cells[(w.start[1] + (k - 1) \div w.count[2]) * x.shape[2] + w.start[2] + ((k - 1) % w.count[2]) + 1]]
IsWrite(op) == op.a \in {"Write", "WriteAll", "WriteBlock"}

Apply(st, op) ==
  CASE op.a = "Create" ->
         IF op.refused # "-" THEN Err(st)
         ELSE OK([st EXCEPT ![op.f] = [shape |-> op.shape, dt |-> op.dt, tile |-> op.tile, nd |-> "-", geo |-> NoGeo, open |-> "rw",
                                       bands |-> [b \in 1..op.nb |-> NewBand(op.shape, op.fill)]]], <<>>)
    \* of what is not there, or not a raster, nothing is known
    [] op.a = "Open" -> IF op.f \notin There(st) THEN Err(st) ELSE OK([st EXCEPT ![op.f].open = op.mode], About(st[op.f]))
    [] op.a = "Close" -> OK([st EXCEPT ![op.f].open = "-"], [contents |-> Contents(st[op.f]), about |-> About(st[op.f])])
    [] op.a = "TypeOf" -> IF op.f \notin There(st) THEN Err(st) ELSE OK(st, [dt |-> st[op.f].dt])
    [] op.a = "Describe" -> OK(st, About(st[op.f]))
    [] op.a = "Geo" -> IF Supported(st[op.f].geo) THEN OK(st, [geo |-> st[op.f].geo]) ELSE Err(st)
    [] op.a = "SetGeo" -> OK([st EXCEPT ![op.f].geo = op.geo], <<>>)
    \* in a band, and in all others too
    [] op.a = "SetNoData" -> IF ~HasBand(st[op.f], op.b) THEN Err(st) ELSE OK([st EXCEPT ![op.f].nd = op.nd], <<>>)
    [] op.a = "Copy" -> IF op.refused # "-" THEN Err(st)
                        ELSE OK([st EXCEPT ![op.to] = [st[op.f] EXCEPT !.open = "-", !.tile = op.tile]],
                                [contents |-> Contents(st[op.f]), about |-> About([st[op.f] EXCEPT !.tile = op.tile])])
    [] op.a = "Delete" -> IF op.f \notin There(st) THEN Err(st) ELSE OK([st EXCEPT ![op.f] = Absent], <<>>)
    [] op.a \in {"WriteBlock", "ReadBlock", "Write", "Read", "WriteAll", "ReadAll"} ->
         LET x == st[op.f] IN
         IF ~HasBand(x, op.b) \/ (IsWrite(op) /\ x.open = "ro") \/ (op.a \in {"WriteBlock", "ReadBlock"} /\ ~HasBlock(x, op.at)) THEN Err(st)
         ELSE LET w == WindowOf(op, x) IN
              IF ~Inside(x, w) THEN Err(st)
              ELSE IF IsWrite(op) THEN OK([st EXCEPT ![op.f].bands[op.b] = Written(x, @, w, op.base)], <<>>)
              ELSE OK(st, [vals |-> Values(x, x.bands[op.b], w)])
    [] op.a = "DriverName" -> OK(st, [driver |-> IF op.ext \in DOMAIN Drivers THEN Drivers[op.ext] ELSE "Unknown"])
    [] op.a = "Driver" -> IF op.known THEN OK(st, <<>>) ELSE Err(st)
    [] op.a = "TypeName" -> OK(st, [name |-> TypeName[op.dt], traits |-> TRUE, supported |-> TRUE])
    \* the number of errors noticed while so many errors occur inside of, and after, a number of nested quiet handlers
    [] op.a = "Quiet" -> OK(st, [inside |-> IF op.depth > 0 THEN 0 ELSE op.n, after |-> op.n])
----------------------------------------------------------------------------
Start(ev) == Empty
RetOK(r, ev) == r.ret = <<>> \/ \A f \in DOMAIN r.ret : f \in DOMAIN ev.ret /\ r.ret[f] = ev.ret[f]
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~RetOK(r, ev) THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
                     ELSE IF {ev.obs[i] : i \in DOMAIN ev.obs} # There(r.st) THEN {"files"} ELSE {})
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret]]
=============================================================================
