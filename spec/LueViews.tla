----------------------------- MODULE LueViews -----------------------------
(* Raster views. A raster is a property-set of a phenomenon with a single object, laid out in a particular way: the shape of
   its grid is the value of a property, its bounding box is the one item of its domain, and its layers are the properties
   discretized by the property with the shape of the grid (and, when they vary, the one with the number of time steps).
   State: what is in the dataset, and the views there are on it. A view knows the layers there were when it was opened, and
   those added through it. Numbers that can be large are texts. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Phenomena == {"area", "p"}
Sets == {"area", "s", "t"}
Slots == 0..3
SG == "space_grid_shape"
TG == "time_grid_shape"
None == "-"
NoDom == [item |-> None]
\* a property: kind, value type, rank, extents and number of its arrays, what discretizes its time and space
Prop(kind, dt, shape, n, td, sd) == [kind |-> kind, dt |-> dt, shape |-> shape, n |-> n, td |-> td, sd |-> sd]
Nothing == <<>>
NoView == [kind |-> None]
Empty == [ds |-> <<>>, views |-> [s \in Slots |-> NoView], plain |-> TRUE]

\* types that arrays can't have; in Python they can be asked for
Unsupported == {"c16", "b1", "f2", "M8"}

Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
HasSet(st, p, s) == Has(st.ds, p) /\ Has(st.ds[p].sets, s)
SetOf(st, p, s) == st.ds[p].sets[s]
PutSet(st, p, s, x) == [st EXCEPT !.ds[p].sets = Put(@, s, x)]

GridOK(q, kind, shape) == q.kind = kind /\ q.dt = "u64" /\ q.shape = shape /\ q.n = 1 /\ q.td = Nothing /\ q.sd = Nothing
IsRaster(st, p, s) ==
  LET x == SetOf(st, p, s) IN
  /\ Len(st.ds[p].ids) = 1
  /\ x.space.item = "box" /\ ~x.space.mobile /\ ~x.space.disc /\ x.space.n = 1
  /\ Has(x.props, SG) /\ GridOK(x.props[SG], "same", <<2>>)
IsConstant(st, p, s) == IsRaster(st, p, s) /\ ~Has(SetOf(st, p, s).props, TG)
IsVariable(st, p, s) ==
  LET x == SetOf(st, p, s) IN
  /\ IsRaster(st, p, s)
  /\ x.time.item = "box" /\ x.time.n = 1
  /\ Has(x.props, TG) /\ GridOK(x.props[TG], "same_const", <<1>>)
Is(st, kind, p, s) == IF kind = "constant" THEN IsConstant(st, p, s) ELSE IsVariable(st, p, s)
CanOpen(st, kind, p, s) == IF kind = "constant" THEN IsRaster(st, p, s) ELSE IsVariable(st, p, s)

Layers(st, kind, p, s) ==
  LET x == SetOf(st, p, s).props
      own(n) == <<p, s, n>>
  IN {n \in DOMAIN x : IF kind = "constant" THEN x[n].kind = "diff" /\ x[n].sd = own(SG)
                       ELSE x[n].kind = "diff_const" /\ x[n].sd = own(SG) /\ x[n].td = own(TG)}
\* what a view tells
About(st, v) ==
  LET x == SetOf(st, v.p, v.s)
      c == [p |-> v.p, s |-> v.s, oid |-> st.ds[v.p].ids[1], grid |-> x.grid, sbox |-> x.sbox, layers |-> v.layers]
  IN IF v.kind = "constant" THEN c ELSE c @@ [tbox |-> x.tbox, nt |-> x.nt]
LayerShape(st, v) == LET x == SetOf(st, v.p, v.s) IN IF v.kind = "constant" THEN x.grid ELSE <<x.nt>> \o x.grid
View(st, kind, p, s) == [kind |-> kind, p |-> p, s |-> s, layers |-> Layers(st, kind, p, s)]

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
\* an operation in a dataset that is closed and opened again
Anew(r) == [r EXCEPT !.st = [r.st EXCEPT !.views = [s \in Slots |-> NoView]]]

Created(st, op) ==
  LET variable == op.kind = "variable"
      made == IF Has(st.ds, op.p) THEN st ELSE [st EXCEPT !.ds = Put(@, op.p, [ids |-> <<>>, sets |-> <<>>])]
      ided == IF made.ds[op.p].ids = <<>> THEN [made EXCEPT !.ds[op.p].ids = <<"5">>] ELSE made
      set == [time |-> IF variable THEN [item |-> "box", n |-> 1, clock |-> op.clock] ELSE NoDom,
              space |-> [item |-> "box", mobile |-> FALSE, disc |-> FALSE, n |-> 1],
              props |-> LET g == (SG :> Prop("same", "u64", <<2>>, 1, Nothing, Nothing))
                        IN IF variable THEN g @@ (TG :> Prop("same_const", "u64", <<1>>, 1, Nothing, Nothing)) ELSE g,
              tracked |-> IF variable THEN <<ided.ds[op.p].ids[1]>> ELSE <<>>,
              grid |-> op.grid, sbox |-> op.sbox, tbox |-> op.tbox, nt |-> op.nt]
      \* a domain has items for all objects
  IN [PutSet(ided, op.p, op.s, set) EXCEPT !.plain = st.plain /\ Len(ided.ds[op.p].ids) = 1]

Apply(st, op) ==
  CASE op.a = "Create" ->
         IF HasSet(st, op.p, op.s) THEN Err(st)
         ELSE LET t == Created(st, op) IN OK([t EXCEPT !.views[op.v] = View(t, op.kind, op.p, op.s)], <<>>)
    [] op.a = "Open" -> OK([st EXCEPT !.views[op.v] = View(st, op.kind, op.p, op.s)], <<>>)
    [] op.a = "Copy" -> OK([st EXCEPT !.views[op.to] = st.views[op.v]], <<>>)
    [] op.a = "Close" -> OK([st EXCEPT !.views[op.v] = NoView], <<>>)
    [] op.a = "AddLayer" -> LET v == st.views[op.v] IN
         IF Has(SetOf(st, v.p, v.s).props, op.name) \/ op.dt \in Unsupported THEN Err(st)
         ELSE LET x == SetOf(st, v.p, v.s)
                  own(n) == <<v.p, v.s, n>>
                  q == IF v.kind = "constant" THEN Prop("diff", op.dt, LayerShape(st, v), 1, Nothing, own(SG))
                       ELSE Prop("diff_const", op.dt, LayerShape(st, v), 1, own(TG), own(SG))
                  t == PutSet(st, v.p, v.s, [x EXCEPT !.props = Put(@, op.name, q)])
              IN OK([t EXCEPT !.views[op.v].layers = @ \cup {op.name}], [shape |-> LayerShape(st, v), dt |-> op.dt])
    [] op.a = "Layer" -> LET v == st.views[op.v] IN
         IF op.name \in v.layers THEN OK(st, [shape |-> LayerShape(st, v), dt |-> SetOf(st, v.p, v.s).props[op.name].dt]) ELSE Err(st)
    [] op.a = "Contains" -> IF ~HasSet(st, op.p, op.s) THEN Err(st) ELSE OK(st, [is |-> Is(st, op.kind, op.p, op.s)])
    [] op.a = "Probe" ->
         IF op.name \notin Layers(st, op.kind, op.p, op.s) THEN Anew(Err(st))
         ELSE Anew(OK(st, [oid |-> st.ds[op.p].ids[1], grid |-> SetOf(st, op.p, op.s).grid, dt |-> SetOf(st, op.p, op.s).props[op.name].dt]))
    \* not by way of a view
    [] op.a = "MakePhenomenon" -> OK([st EXCEPT !.ds = Put(@, op.p, [ids |-> op.ids, sets |-> <<>>])], <<>>)
    [] op.a = "MakeSet" ->
         OK([PutSet(st, op.p, op.s, [time |-> op.time, space |-> op.space, props |-> op.props, tracked |-> <<>>,
                                    grid |-> op.grid, sbox |-> op.sbox, tbox |-> op.tbox, nt |-> op.nt]) EXCEPT !.plain = FALSE], <<>>)
    [] op.a = "AddProperty" ->
         LET x == SetOf(st, op.p, op.s) IN
         OK([PutSet(st, op.p, op.s, [x EXCEPT !.props = Put(@, op.name, op.prop)]) EXCEPT !.plain = FALSE], <<>>)
    [] op.a = "Reopen" -> Anew(OK(st, <<>>))
    [] op.a = "Check" -> OK(st, IF st.plain THEN [valid |-> TRUE] ELSE <<>>)
    \* names of the parts of the pathname of an array
    [] op.a = "Pathname" ->
         IF op.full THEN IF Len(op.names) < (IF op.abs THEN 3 ELSE 4) THEN Err(st)
                         ELSE LET n == Len(op.names) IN
                              OK(st, [dataset |-> SubSeq(op.names, 1, n - 3), p |-> op.names[n - 2], s |-> op.names[n - 1], name |-> op.names[n]])
         ELSE IF Len(op.names) # 3 \/ op.abs THEN Err(st)
              ELSE OK(st, [dataset |-> <<>>, p |-> op.names[1], s |-> op.names[2], name |-> op.names[3]])

----------------------------------------------------------------------------
Start(ev) == Empty
Range(f) == {f[i] : i \in DOMAIN f}
RetOK(r, ev) == r.ret = <<>> \/ \A f \in DOMAIN r.ret : f \in DOMAIN ev.ret /\ ev.ret[f] = r.ret[f]
SameView(st, v, o) ==
  IF v.kind = None THEN o.kind = None
  ELSE LET a == About(st, v) IN
       /\ o.kind = v.kind
       /\ \A f \in DOMAIN a \ {"layers"} : o[f] = a[f]
       /\ Len(o.layers) = Cardinality(v.layers) /\ Range(o.layers) = v.layers
       /\ o.nr = Cardinality(v.layers)
       /\ Range(o.contains) = v.layers
Found(o) == {<<o.props[i].name, o.props[i].kind, o.props[i].dt>> : i \in DOMAIN o.props}
SameSet(x, o) ==
  /\ Found(o) = {<<n, x.props[n].kind, x.props[n].dt>> : n \in DOMAIN x.props}
  /\ Len(o.props) = Cardinality(DOMAIN x.props)
  /\ o.space = x.space.item
  /\ o.time = x.time.item
  /\ (x.time.item # None => o.clock = x.time.clock)
  /\ o.tracked = x.tracked
SameData(ds, o) ==
  /\ DOMAIN ds = {o[i].p : i \in DOMAIN o}
  /\ \A i \in DOMAIN o : LET p == ds[o[i].p] IN
       /\ o[i].ids = p.ids
       /\ {o[i].sets[j].s : j \in DOMAIN o[i].sets} = DOMAIN p.sets
       /\ \A j \in DOMAIN o[i].sets : SameSet(p.sets[o[i].sets[j].s], o[i].sets[j])
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      t == r.st
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~RetOK(r, ev) THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
                     ELSE (IF ~SameData(t.ds, ev.obs.ds) THEN {"dataset"} ELSE {})
                          \cup (IF \E s \in Slots : ~SameView(t, t.views[s], ev.obs.views[s + 1]) THEN {"views"} ELSE {}))
  IN [st |-> t, wrong |-> wrong,
      exp |-> [res |-> r.res, ret |-> r.ret, views |-> [s \in Slots |-> IF t.views[s] = NoView THEN NoView ELSE About(t, t.views[s])], ds |-> t.ds]]
=============================================================================
