---------------------------- MODULE LueViewsMC ----------------------------
(* All short histories of views on a few rasters *)
EXTENDS LueViews, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Kinds == {"constant", "variable"}
V == {s \in 0..1 : st.views[s] # NoView}
Some(op) == [a |-> "Create", grid |-> <<"2", "3">>, sbox |-> <<1, 2, 3, 4>>, tbox |-> <<"0", "9">>, nt |-> IF op.kind = "constant" THEN "1" ELSE "4",
             clock |-> [unit |-> "day", n |-> "1"], v |-> op.v, kind |-> op.kind, p |-> op.p, s |-> op.s, how |-> 0]
AllSets == {<<p, s>> \in {"p"} \X {"s", "t"} : HasSet(st, p, s)}
Ops == {Some([v |-> v, kind |-> k, p |-> "p", s |-> s]) : v \in 0..1, k \in Kinds, s \in {"s", "t"}}
       \cup {[a |-> "Open", v |-> v, kind |-> x[2], p |-> x[1][1], s |-> x[1][2], how |-> 0] : v \in 0..1,
             x \in {y \in AllSets \X Kinds : CanOpen(st, y[2], y[1][1], y[1][2])}}
       \cup {[a |-> "AddLayer", v |-> v, name |-> m, dt |-> "i32", how |-> 0, nodata |-> None] : v \in V, m \in {"a", "b", SG, TG}}
       \cup {[a |-> "Layer", v |-> v, name |-> "a"] : v \in V}
       \cup {[a |-> "Reopen"]}
       \cup {[a |-> "AddProperty", p |-> q[1], s |-> q[2], name |-> "a", grid |-> <<>>, nt |-> "1",
              prop |-> Prop(k, "u8", <<"2", "3">>, 1, IF HasSet(st, q[1], d[1]) /\ Has(SetOf(st, q[1], d[1]).props, TG) THEN <<q[1], d[1], TG>> ELSE Nothing,
                            IF HasSet(st, q[1], d[2]) THEN <<q[1], d[2], SG>> ELSE Nothing)] :
             q \in {x \in AllSets : ~Has(SetOf(st, x[1], x[2]).props, "a")}, k \in {"diff", "diff_const"}, d \in {"s", "t"} \X {"s", "t"}}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> Empty]
Next == /\ n < Bound /\ n' = n + 1
        /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Refused == last.res = "err" => st = last.old
\* a view lists layers of its raster only; a view opened now lists them all
Sound == \A s \in V : LET v == st.views[s] IN v.layers \subseteq Layers(st, v.kind, v.p, v.s)
Complete == last.op.a = "Open" => LET v == st.views[last.op.v] IN v.layers = Layers(st, v.kind, v.p, v.s)
\* what a view tells doesn't change by anything but adding layers through it
Steady == \A s \in V : (s \in DOMAIN last.old.views /\ last.old.views[s] # NoView /\ last.op.a \in {"AddLayer", "AddProperty", "Layer"}) =>
  \A f \in DOMAIN About(st, st.views[s]) \ {"layers"} : About(st, st.views[s])[f] = About(last.old, last.old.views[s])[f]
\* a property is a layer of one kind at most, and of one raster only
Apart == \A q \in AllSets : /\ Layers(st, "constant", q[1], q[2]) \cap Layers(st, "variable", q[1], q[2]) = {}
                            /\ ~(IsConstant(st, q[1], q[2]) /\ IsVariable(st, q[1], q[2]))
                            /\ SG \notin Layers(st, "constant", q[1], q[2])
Found1 == \A s \in V : IsRaster(st, st.views[s].p, st.views[s].s)
=============================================================================
