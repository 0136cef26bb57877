----------------------------- MODULE LueCells -----------------------------
(* The cells of the layers of raster views. A layer is an array (LueArrays) with the shape of the grid of its raster, for
   rasters through time preceded by the number of time steps. There are two rasters, with up to two views each; a view
   knows the layers there were when it was opened, and those added through it. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
A == INSTANCE LueArrays

Rasters == {"s", "t"}
Views == 0..1
NoRaster == [kind |-> "-"]
Empty == [r \in Rasters |-> NoRaster]
Made(st) == {r \in Rasters : st[r] # NoRaster}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Shape(x) == IF x.kind = "variable" THEN <<x.nt>> \o x.grid ELSE x.grid
Known(st, op) == op.name \in st[op.r].known[op.v + 1]
OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]

Apply(st, op) ==
  CASE op.a = "Create" ->
         IF st[op.r] # NoRaster THEN Err(st)
         ELSE OK([st EXCEPT ![op.r] = [kind |-> op.kind, grid |-> op.grid, nt |-> op.nt, layers |-> <<>>, known |-> <<{}, {}>>]], <<>>)
    [] op.a = "Open" -> OK([st EXCEPT ![op.r].known[op.v + 1] = DOMAIN st[op.r].layers], <<>>)
    [] op.a = "Reopen" -> OK([r \in Rasters |-> IF st[r] = NoRaster THEN NoRaster
                              ELSE [st[r] EXCEPT !.known = <<DOMAIN st[r].layers, DOMAIN st[r].layers>>]], <<>>)
    [] op.a = "AddLayer" ->
         LET x == st[op.r] IN
         IF op.name \in DOMAIN x.layers THEN Err(st)
         ELSE OK([st EXCEPT ![op.r].layers = Put(@, op.name, A!Apply(A!Empty, [a |-> "Make", shape |-> Shape(x), ext |-> FALSE,
                                                                             dt |-> op.dt, scale |-> op.scale, fill |-> op.fill]).st),
                            ![op.r].known[op.v + 1] = @ \cup {op.name}], <<>>)
    [] op.a \in {"Write", "WriteAll", "Read", "ReadAll"} ->
         IF ~Known(st, op) THEN Err(st)
         ELSE LET r == A!Apply(st[op.r].layers[op.name], op) IN
              [st |-> [st EXCEPT ![op.r].layers[op.name] = r.st], res |-> r.res, ret |-> r.ret]
    [] op.a = "NoData" ->
         IF ~Known(st, op) THEN Err(st)
         ELSE LET y == st[op.r].layers[op.name] IN OK(st, [has |-> y.fill # A!NoValue, value |-> y.fill])

----------------------------------------------------------------------------
Start(ev) == Empty
Names(obs) == {obs[i].r : i \in DOMAIN obs}
LayersOK(x, o) ==
  /\ {o[i].name : i \in DOMAIN o} = DOMAIN x.layers /\ Len(o) = Cardinality(DOMAIN x.layers)
  /\ \A i \in DOMAIN o : LET y == x.layers[o[i].name] IN
       o[i].shape = y.shape /\ o[i].dt = y.dt /\ A!SameValues(y.cells, o[i].cells)
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      t == r.st
      wrong ==
        (IF ev.res # r.res /\ ~(ev.res = "err" /\ A!MayFail(r)) THEN {"outcome"} ELSE {})
        \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~A!RetOK(r, ev) THEN {"returned"} ELSE {})
        \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
              ELSE IF Names(ev.obs) # Made(t) THEN {"rasters"}
              ELSE IF \E i \in DOMAIN ev.obs : ~LayersOK(t[ev.obs[i].r], ev.obs[i].layers) THEN {"cells"} ELSE {})
  IN [st |-> t, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, st |-> t]]
=============================================================================
