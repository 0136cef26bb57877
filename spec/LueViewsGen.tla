--------------------------- MODULE LueViewsGen ---------------------------
(* Random histories of LueViews *)
EXTENDS LueViews, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
Focus == IOEnv.FOCUS
\* the Python API creates rasters and adds layers, and doesn't open views on the rasters there are
Steps == IF Focus = "Y04" THEN (1..27) \ {3, 4, 5, 20, 21, 22, 23, 25, 27} ELSE 1..27

One(S) == {TLCEval(RandomElement(S))}
Chance(n) == RandomElement(1..n) = 1
Dims == {"1", "2", "3", "7", "40"}
Large == {"4294967296", "2147483648", "70000"}
SomeGrid(c) == [i \in 1..2 |-> RandomElement(IF Chance(12) THEN Large ELSE Dims)]
SomeBox(c) == [i \in 1..4 |-> RandomElement(0..60)]
\* a time box ends after it starts
Times == <<"0", "1", "10", "365", "4294967296", "18446744073709551615">>
SomeTimes(c) == LET i == TLCEval(RandomElement(1..6)) IN <<Times[i], Times[RandomElement(i..6)]>>
SomeNt(c) == RandomElement({"1", "2", "3", "5", "12"})
SomeClock(c) == [unit |-> RandomElement({"day", "month"}), n |-> RandomElement({"1", "2", "7"})]
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
Names == {"a", "b", "c", "d", "a_", "lue_a", "space_discretization_a", "B C"}
Ids == {"0", "1", "5", "9", "4294967296", "18446744073709551615"}

Views == {s \in Slots : st.views[s] # NoView}
AllSets == {<<p, s>> \in Phenomena \X Sets : HasSet(st, p, s)}
Openable == {<<k, q[1], q[2]>> : k \in {"constant", "variable"}, q \in AllSets}
CanBe == {x \in Openable : CanOpen(st, x[1], x[2], x[3])}
Rasters == {<<"constant", q[1], q[2]>> : q \in AllSets}
SmallView(v) == \A i \in 1..2 : SetOf(st, v.p, v.s).grid[i] \notin Large

\* a layout that is that of a raster, or nearly so
Wrong(dummy) == RandomElement({"item", "mobile", "disc", "n", "sg", "sgkind", "sgdt", "sgshape", "sgn", "sgsd", "sgtd",
                       "time", "titem", "tn", "tg", "tgkind", "tgdt", "tgshape", "tgn", "tgsd", "tgtd"})
Layout(p, s, variable, w, c) ==
  LET other == <<p, s, "zz">>
      sd == IF w = "sgsd" THEN other ELSE Nothing
      \* without time there is nothing to discretize
      sg == Prop(IF w = "sgkind" THEN RandomElement({"same_const", "diff"}) ELSE "same",
                 IF w = "sgdt" THEN RandomElement({"i64", "u32", "f64"}) ELSE "u64",
                 IF w = "sgshape" THEN RandomElement({<<1>>, <<3>>, <<2, 1>>}) ELSE <<2>>,
                 IF w = "sgn" THEN RandomElement({0, 2}) ELSE 1, IF w = "sgtd" THEN other ELSE Nothing, sd)
      tg == Prop(IF w = "tgkind" THEN RandomElement({"same", "diff_const"}) ELSE "same_const",
                 IF w = "tgdt" THEN RandomElement({"i64", "u32", "f64"}) ELSE "u64",
                 IF w = "tgshape" THEN RandomElement({<<2>>, <<1, 1>>}) ELSE <<1>>,
                 IF w = "tgn" THEN RandomElement({0, 2}) ELSE 1,
                 IF w = "tgtd" THEN other ELSE Nothing, IF w = "tgsd" THEN other ELSE Nothing)
      zz == "zz" :> Prop("same", "u64", <<2>>, 1, Nothing, Nothing)
  IN [time |-> IF ~variable \/ w = "time" THEN NoDom
               ELSE [item |-> IF w = "titem" THEN RandomElement({"point", "cell"}) ELSE "box",
                     n |-> IF w = "titem" THEN 0 ELSE IF w = "tn" THEN RandomElement({0, 2}) ELSE 1, clock |-> c],
      space |-> [item |-> IF w = "item" THEN RandomElement({None, "point"}) ELSE "box", mobile |-> w = "mobile" /\ variable,
                 disc |-> w = "disc", n |-> IF w \in {"item", "mobile"} THEN 0 ELSE IF w = "n" THEN RandomElement({0, 2}) ELSE 1],
      props |-> zz @@ (IF w = "sg" THEN <<>> ELSE SG :> sg) @@ (IF variable /\ w # "tg" THEN TG :> tg ELSE <<>>)]

Bare(c) == [time |-> NoDom, space |-> [item |-> None, mobile |-> FALSE, disc |-> FALSE, n |-> 0], props |-> <<>>]

Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Skip == UNCHANGED <<st, hist>>
Step(c) ==
  CASE c \in {1, 2} ->
         \E v \in One(Slots), k \in One({"constant", "variable"}), p \in One(Phenomena), s \in One(Sets), h \in One(0..1),
            g \in {TLCEval(SomeGrid(c))}, b \in {TLCEval(SomeBox(c))}, tb \in {TLCEval(SomeTimes(c))}, nt \in {TLCEval(SomeNt(c))}, cl \in {TLCEval(SomeClock(c))} :
           Do([a |-> "Create", v |-> v, kind |-> k, p |-> p, s |-> s, grid |-> g, sbox |-> b, tbox |-> tb,
               nt |-> IF k = "constant" THEN "1" ELSE nt, clock |-> cl, how |-> h])
    [] c \in {3, 4} -> IF CanBe = {} THEN Skip
         ELSE \E v \in One(Slots), x \in One(CanBe), h \in One(0..1) : Do([a |-> "Open", v |-> v, kind |-> x[1], p |-> x[2], s |-> x[3], how |-> h])
    [] c = 5 -> IF Views = {} THEN Skip ELSE \E v \in One(Views), to \in One(Slots), h \in One(0..1) : Do([a |-> "Copy", v |-> v, to |-> to, how |-> h])
    [] c = 6 -> IF Views = {} THEN Skip ELSE \E v \in One(Views) : Do([a |-> "Close", v |-> v])
    [] c \in {7, 8, 9, 10, 11} -> IF Views = {} THEN Skip
         ELSE \E v \in One(Views), m \in One(1..10), dt \in One(IF Focus = "Y04" /\ Chance(8) THEN Unsupported ELSE Types), h \in One(0..2), nd \in One({None, "3", "1"}) :
              \E name \in One(IF m = 1 THEN DOMAIN SetOf(st, st.views[v].p, st.views[v].s).props ELSE Names) :
                IF ~SmallView(st.views[v]) THEN Skip
                ELSE Do([a |-> "AddLayer", v |-> v, name |-> name, dt |-> dt, how |-> h, nodata |-> IF st.views[v].kind = "variable" \/ Focus = "Y04" THEN None ELSE nd])
    [] c \in {12, 13} -> IF Views = {} THEN Skip
         ELSE \E v \in One(Views), m \in One(1..3) :
              \E name \in One(IF m = 1 \/ st.views[v].layers = {} THEN Names \cup (IF Focus = "Y04" THEN {} ELSE {SG}) ELSE st.views[v].layers) : Do([a |-> "Layer", v |-> v, name |-> name])
    [] c \in {14, 15, 16} -> \E k \in One({"constant", "variable"}), m \in One(1..8) :
         \E q \in One(IF m = 1 \/ AllSets = {} THEN Phenomena \X Sets ELSE AllSets) : Do([a |-> "Contains", kind |-> k, p |-> q[1], s |-> q[2]])
    [] c \in {17, 18} -> IF CanBe = {} THEN Skip
         ELSE \E x \in One(CanBe), m \in One(1..5) : \E name \in One(IF m = 1 \/ Layers(st, x[1], x[2], x[3]) = {} THEN Names ELSE Layers(st, x[1], x[2], x[3])) :
                Do([a |-> "Probe", kind |-> x[1], p |-> x[2], s |-> x[3], name |-> name])
    [] c = 19 -> LET new == Phenomena \ DOMAIN st.ds IN IF new = {} THEN Skip
         ELSE \E p \in One(new), n \in One({0, 1, 1, 2}) : \E i \in One(Ids) : \E j \in One(Ids \ {i}) :
              Do([a |-> "MakePhenomenon", p |-> p, ids |-> SubSeq(<<i, j>>, 1, n)])
    [] c \in {20, 21} -> LET new == {<<p, s>> \in (DOMAIN st.ds) \X Sets : ~HasSet(st, p, s)} IN IF new = {} THEN Skip
         ELSE \E q \in One(new), variable \in One(BOOLEAN), b \in {TLCEval(SomeBox(c))}, tb \in {TLCEval(SomeTimes(c))},
                 nt \in {TLCEval(SomeNt(c))}, cl \in {TLCEval(SomeClock(c))}, r \in One(1..5), d1 \in One(Dims), d2 \in One(Dims) :
              \E w \in {TLCEval(IF r = 1 THEN "" ELSE Wrong(c))} :
              \E y \in {TLCEval(IF st.ds[q[1]].ids = <<>> THEN Bare(cl) ELSE Layout(q[1], q[2], variable, w, cl))} :
                Do([a |-> "MakeSet", p |-> q[1], s |-> q[2], time |-> y.time, space |-> y.space, props |-> y.props,
                    grid |-> <<d1, d2>>, sbox |-> b, tbox |-> tb, nt |-> nt])
    [] c \in {22, 23} -> IF AllSets = {} THEN Skip
         ELSE \E q \in One(AllSets), name \in One(Names), kind \in One({"same", "same_const", "diff", "diff_const", "diff", "diff_const"}), dt \in One(Types), own \in One(1..4) :
              LET x == SetOf(st, q[1], q[2])
                  small == \A i \in 1..2 : x.grid[i] \notin Large
                  \* properties there are to discretize by
                  all == UNION {{<<r[1], r[2], n>> : n \in DOMAIN SetOf(st, r[1], r[2]).props} : r \in AllSets}
                  by(tag) == {<<q[1], q[2], tag>>} \cap all
              IN IF Has(x.props, name) \/ ~small \/ Len(st.ds[q[1]].ids) # 1 \/ all = {} THEN Skip
                 ELSE \E t \in One(all \cup {Nothing}), s \in One(all \cup {Nothing}) :
                      LET td == IF own \in {1, 2} /\ by(TG) # {} THEN <<q[1], q[2], TG>> ELSE t
                          sd == IF own \in {1, 3} /\ by(SG) # {} THEN <<q[1], q[2], SG>> ELSE s
                          shape == IF kind = "diff_const" THEN <<x.nt>> \o x.grid ELSE IF kind = "diff" THEN x.grid ELSE <<3>>
                      IN Do([a |-> "AddProperty", p |-> q[1], s |-> q[2], name |-> name, grid |-> x.grid, nt |-> x.nt,
                             prop |-> Prop(kind, dt, shape, 1, td, sd)])
    [] c \in {24, 25} -> Do([a |-> "Reopen"])
    [] c = 26 -> Do([a |-> "Check"])
    [] c = 27 -> \E n \in One(1..6), abs \in One(BOOLEAN), full \in One(BOOLEAN) :
         \E names \in {TLCEval([i \in 1..n |-> RandomElement({"a", "b.lue", "c d", "..", "x"})])} :
           Do([a |-> "Pathname", names |-> names, abs |-> abs /\ full, full |-> full])
Init == st = Empty /\ hist = <<>>
Next == Len(hist) < Depth /\ \E c \in One(Steps) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
