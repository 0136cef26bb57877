----------------------------- MODULE LueSizesMC -----------------------------
(* All small pools, ranges of shapes and benchmarks *)
EXTENDS LueSizes, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Pools == {[kind |-> k, min |-> a, max |-> b, by |-> c] : k \in {"multiplier", "incrementor", "size"}, a \in 0..4, b \in 0..20, c \in 0..4}
Extents == UNION {[1..r -> 1..(IF r = 1 THEN 12 ELSE 5)] : r \in 1..3}
Ranges == {[min |-> s, most |-> m, by |-> b, method |-> me] : s \in Extents, m \in {3, 16, 27, 63, 64, 65, 250}, b \in 1..4, me \in {"linear", "exponential"}}
Clusters == {[nodes |-> a, packages |-> b, numa |-> c, cores |-> d, threads |-> 2, memory |-> 3] : a \in 1..3, b \in 1..2, c \in 1..2, d \in 1..4}
Benchmarks == {[type |-> t, per |-> p, pool |-> [kind |-> "incrementor", min |-> a, max |-> b, by |-> c]] :
               t \in {"thread", "numa_node", "cluster_node"}, p \in {"cluster_node", "numa_node"}, a \in 1..3, b \in 1..8, c \in 1..2}
Init == /\ n = 0 /\ st \in {[Empty EXCEPT !.cluster = c] : c \in {<<>>} \cup Clusters} /\ last = [op |-> [a |-> "none"], res |-> "ok", ret |-> <<>>]
Ops == (IF st.cluster = <<>>
        THEN {[a |-> "Pool", pool |-> p] : p \in Pools} \cup {[a |-> "Range", range |-> r] : r \in Ranges}
             \cup {[a |-> "ArrayShape", memory |-> m, rank |-> r, arrays |-> ar, size |-> s, nodes |-> no] : m \in {1, 8, 63, 64, 1000, 1331}, r \in 1..4, ar \in 1..2, s \in {1, 4}, no \in 1..2}
             \cup {[a |-> "Weak", shape |-> s, workers |-> w] : s \in UNION {[1..r -> {1, 10, 33}] : r \in 1..3}, w \in {1, 2, 4, 8, 9}}
             \cup {[a |-> "PartitionShapes", min |-> s, max |-> t, step |-> w] : s \in [1..2 -> 1..3], t \in [1..2 -> 1..6], w \in 0..3}
        ELSE {[a |-> "Benchmark", benchmark |-> b] : b \in Benchmarks})
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, ret |-> r.ret]
Spec == Init /\ [][Next]_<<st, last, n>>
Done(a) == last.op.a = a /\ last.res = "ok"
PoolHolds == Done("Pool") =>
  LET p == last.op.pool  s == last.ret.sizes IN
  /\ s[1] = p.min /\ \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1] /\ s[k + 1] = (IF p.kind = "multiplier" THEN s[k] * p.by ELSE s[k] + p.by)
  /\ (p.kind # "size" => s[Len(s)] <= p.max /\ (IF p.kind = "multiplier" THEN s[Len(s)] * p.by ELSE s[Len(s)] + p.by) > p.max)
  \* the pool as it describes itself is the same pool
  /\ PoolInfo([p EXCEPT !.max = last.ret.max]) = last.ret
RangeHolds == Done("Range") =>
  LET r == last.op.range  s == last.ret.shapes IN
  /\ s[1] = r.min /\ \A k \in DOMAIN s : Prod(s[k]) <= r.most /\ Len(s[k]) = Len(r.min)
  /\ \A k \in 1..(Len(s) - 1) : \A d \in DOMAIN s[k] : s[k][d] <= s[k + 1][d]
  /\ \A k \in DOMAIN s : Prod(s[k]) <= Prod(r.min) * Factors(r)[k]
  /\ (Len(r.min) = 1 => \A k \in DOMAIN s : s[k][1] = Prod(r.min) * Factors(r)[k])
ArrayHolds == Done("ArrayShape") =>
  LET o == last.op  e == last.ret.shape[1] IN
  /\ Pow(e, o.rank) * o.arrays * o.size <= o.nodes * o.memory /\ Pow(e + 1, o.rank) * o.arrays * o.size > o.nodes * o.memory
WeakHolds == Done("Weak") => LET w == last.op.workers * Prod(last.op.shape) IN
  /\ Abs(Prod(last.ret.shape) - w) * 1000 < w
  /\ (last.op.workers = 1 => last.ret.shape = last.op.shape)
BenchmarkHolds == Done("Benchmark") =>
  LET c == st.cluster  r == last.ret IN
  /\ r.needs[2] <= c.nodes /\ r.needs[4] <= Numas(c) /\ r.needs[6] <= Totals(c).cores
  /\ \A k \in {1, 3, 5} : 1 <= r.needs[k] /\ r.needs[k] <= r.needs[k + 1]
  /\ (r.localities # -1 /\ r.reserved # -1 => r.localities <= r.reserved)
Refused == last.res = "err" => last.ret = <<>>
=============================================================================
