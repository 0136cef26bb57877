---------------------------- MODULE LueSizesGen ----------------------------
(* Random histories of LueSizes *)
EXTENDS LueSizes, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
One(S) == {TLCEval(RandomElement(S))}
Pick(s) == s[RandomElement(1..Len(s))]
Chance(n, dummy) == RandomElement(1..n) = 1
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)

PoolOf(most, dummy) ==
  LET kind == Pick(<<"multiplier", "multiplier", "incrementor", "incrementor", "size">>)
      by == IF Chance(20, dummy) THEN RandomElement(-1..1) ELSE RandomElement(1..6)
      min == IF Chance(20, dummy) THEN RandomElement(-1..0) ELSE RandomElement(1..Min2(most, Pick(<<1, 2, 8, 50>>)))
      \* at, just below and just above a size of the pool
      steps == RandomElement(0..5)
      max == IF kind = "size" THEN min
             ELSE (IF kind = "multiplier" THEN min * Pow(IF by > 0 THEN by ELSE 2, steps) ELSE min + by * steps * Pick(<<1, 1, 4>>)) + Pick(<<0, 0, -1, 1, 3>>)
  IN [kind |-> kind, min |-> min, max |-> max, by |-> IF kind = "size" THEN 0 ELSE by]
AnyShape(rank, most, dummy) == LET c == RandomElement(1..4) IN
  [d \in 1..rank |-> IF c = 1 THEN most ELSE IF c = 2 /\ d > 1 THEN 1 ELSE RandomElement(1..most)]
Extent(rank) == CASE rank = 1 -> 1000 [] rank = 2 -> 40 [] rank = 3 -> 12 [] OTHER -> 6
RangeOf(dummy) ==
  LET rank == RandomElement(1..4)
      shape == TLCEval(AnyShape(rank, Extent(rank), dummy))
      square == IF Chance(3, dummy) THEN [d \in DOMAIN shape |-> shape[1]] ELSE shape
      method == IF Chance(25, dummy) THEN "other" ELSE Pick(<<"linear", "exponential">>)
      by == IF Chance(25, dummy) THEN 1 ELSE RandomElement(2..(IF method = "exponential" THEN 8 ELSE 5))
      times == IF method = "exponential" THEN Pow(by, RandomElement(0..(IF by <= 3 THEN 6 ELSE 3))) ELSE RandomElement(1..40)
      most == Prod(square) * times + (IF Chance(3, dummy) THEN 0 ELSE IF Chance(2, dummy) THEN -1 ELSE RandomElement(0..Prod(square)))
  IN [min |-> square, most |-> most, by |-> by, method |-> method]
ClusterOf(dummy) == [nodes |-> RandomElement(1..20), packages |-> RandomElement(1..3), numa |-> RandomElement(1..4), cores |-> RandomElement(1..32),
                     threads |-> RandomElement(1..2), memory |-> RandomElement(1..256), scheduler |-> Pick(<<"shell", "slurm">>), software |-> RandomElement(0..3)]
BenchmarkOf(c, dummy) ==
  LET type == Pick(<<"thread", "thread", "numa_node", "cluster_node">>)
      per == IF type = "thread" THEN Pick(<<"cluster_node", "numa_node">>) ELSE IF Chance(10, dummy) THEN "cluster_node" ELSE "numa_node"
      most == IF c = <<>> THEN 4 ELSE CASE type = "thread" -> (IF per = "numa_node" THEN c.cores ELSE Numas(c) * c.cores) [] type = "numa_node" -> Numas(c) [] OTHER -> c.nodes
      p == TLCEval(PoolOf(most, dummy))
      q == IF Chance(5, dummy) THEN [p EXCEPT !.kind = "size", !.max = p.min, !.by = 0]
           ELSE IF p.kind # "size" /\ p.max > most /\ ~Chance(4, dummy) THEN [p EXCEPT !.max = most] ELSE p
  IN [type |-> type, per |-> per, count |-> RandomElement(1..9), scenario |-> Pick(<<"default", "s t", "x">>), pool |-> q, hpx |-> RandomElement(0..2)]
Divisor(n) == RandomElement({k \in 1..n : n % k = 0})
Next ==
  /\ Len(hist) < Depth
  /\ \E c \in One(1..20) :
       CASE c <= 3 -> \E p \in {TLCEval(PoolOf(50, c))} : Do([a |-> "Pool", pool |-> p])
         [] c = 4 -> Do([a |-> "PoolAgain"])
         [] c = 5 -> \E i \in One(-2..8) : Do([a |-> "PoolSize", idx |-> i])
         [] c <= 9 -> \E r \in {TLCEval(RangeOf(c))}, how \in One({"function", "class", "again"}) : Do([a |-> "Range", range |-> r, how |-> how])
         [] c = 10 -> \E n \in One(1..4) : \E s \in {TLCEval(AnyShape(n, 1000, c))} : Do([a |-> "Fixed", shape |-> s])
         [] c = 11 -> \E m \in One({RandomElement(1..1000), RandomElement(1..1000000)}), rank \in One(1..4), arrays \in One(1..5), size \in One({1, 2, 4, 8}), nodes \in One(1..8) :
                      Do([a |-> "ArrayShape", memory |-> m, rank |-> rank, arrays |-> arrays, size |-> size, nodes |-> nodes])
         [] c = 12 -> \E rank \in One(1..4) : \E root \in {TLCEval(RandomElement(1..(CASE rank = 1 -> 2000000000 [] rank = 2 -> 2000000 [] rank = 3 -> 30000 [] OTHER -> 5000)))},
                         arrays \in One(1..9), size \in One({8, 16, 24}), nodes \in One({1, 2, 4, 8}), delta \in One(-1..1) :
                      Do([a |-> "ArrayShapeLarge", root |-> root, rank |-> rank, arrays |-> arrays, size |-> size, nodes |-> nodes, delta |-> delta])
         [] c = 13 -> \E rank \in One(1..3), n \in One(1..64) : \E e \in {TLCEval(AnyShape(rank, CASE rank = 1 -> 10000 [] rank = 2 -> 1000 [] OTHER -> 50, c))} : \E sq \in One({0, 1, 2}) :
                      Do([a |-> "Weak", shape |-> e, workers |-> IF sq = 1 THEN Pow(RandomElement(1..(IF rank = 3 THEN 4 ELSE 8)), rank) ELSE n])
         [] c \in {14, 15} -> \E rank \in One(1..3) : \E s \in {TLCEval(AnyShape(rank, 60, c))} :
                      \E p \in {TLCEval([d \in DOMAIN s |-> IF Chance(12, d) THEN RandomElement(1..9) ELSE Divisor(s[d])])} :
                      \E q \in {TLCEval([d \in DOMAIN s |-> LET m == IF Chance(12, d) THEN s[d] ELSE Divisor(s[d]) IN IF m % p[d] = 0 THEN m ELSE p[d]])} :
                      IF c = 14 THEN Do([a |-> "Multipliers", shape |-> s, part |-> IF Chance(15, c) THEN Append(p, 1) ELSE p])
                      ELSE Do([a |-> "MultiplierRanges", shape |-> s, min |-> p, max |-> q])
         [] c \in {16, 17} -> \E rank \in One(1..3) : \E s \in {TLCEval(AnyShape(rank, 60, c))}, step \in One({RandomElement(1..12), RandomElement(1..12), RandomElement(0..2)}) :
                      \E m \in {TLCEval([d \in DOMAIN s |-> s[d] + (IF Chance(25, d) THEN -1 ELSE Pick(<<0, step, 3 * step, 3 * step - 1, RandomElement(0..40)>>))])} :
                      Do([a |-> IF c = 16 THEN "ShapeRanges" ELSE "PartitionShapes", min |-> s, max |-> m, step |-> step])
         [] c = 18 -> \E x \in {TLCEval(ClusterOf(c))} : Do([a |-> "Cluster", cluster |-> x])
         [] c = 19 -> \E b \in {TLCEval(BenchmarkOf(st.cluster, c))} : Do([a |-> "Benchmark", benchmark |-> b])
         [] OTHER -> IF st.cluster = <<>> THEN \E x \in {TLCEval(ClusterOf(c))} : Do([a |-> "Cluster", cluster |-> x])
                     ELSE \E b \in {TLCEval(BenchmarkOf(st.cluster, c))}, e \in One({"weak_scalability", "strong_scalability", "partition_shape"}),
                          r \in {TLCEval(RangeOf(c))}, d \in One(0..2), s \in {TLCEval(AnyShape(2, 1000, c))} :
                          \* nothing is stored if it does not hold
                          IF BenchmarkValid(st.cluster, b) /\ RangeValid(r) THEN Do([a |-> "Store", benchmark |-> b, experiment |-> e, range |-> r, shape |-> s, described |-> d])
                          ELSE Do([a |-> "Benchmark", benchmark |-> b])
Init == st = Empty /\ hist = <<>>
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
