------------------------------ MODULE LueSizes ------------------------------
(* What scalability experiments are asked to measure: pools of workers, shapes of arrays and partitions, and hardware *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [pool |-> <<>>, cluster |-> <<>>]
RECURSIVE Prod(_), Pow(_, _), RootIn(_, _, _, _)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Min2(a, b) == IF a < b THEN a ELSE b
\* largest e for which e ^ d <= v
Limit(d) == CASE d = 2 -> 46340 [] d = 3 -> 1290 [] d = 4 -> 215 [] OTHER -> 73
RootIn(v, d, low, high) == \* low ^ d <= v < (high + 1) ^ d
  IF low = high THEN low
  ELSE LET mid == (low + high + 1) \div 2 IN IF Pow(mid, d) <= v THEN RootIn(v, d, mid, high) ELSE RootIn(v, d, low, mid - 1)
Root(v, d) == IF d = 1 THEN v ELSE RootIn(v, d, 0, Limit(d))
----------------------------------------------------------------------------
(* Pools: [kind, min, max, by], with kind one of multiplier, incrementor, size *)
PoolValid(p) == IF p.kind = "size" THEN p.min >= 1
                ELSE p.min > 0 /\ p.min <= p.max /\ (IF p.kind = "multiplier" THEN p.by > 1 ELSE p.by >= 1)
RECURSIVE SizesFrom(_, _)
SizesFrom(p, s) == IF s > p.max THEN <<>> ELSE <<s>> \o SizesFrom(p, IF p.kind = "multiplier" THEN s * p.by ELSE s + p.by)
Sizes(p) == IF p.kind = "size" THEN <<p.min>> ELSE SizesFrom(p, p.min)
Largest(p) == LET s == Sizes(p) IN s[Len(s)]
PoolInfo(p) == [nr |-> Len(Sizes(p)), sizes |-> Sizes(p), min |-> p.min, max |-> Largest(p)]
----------------------------------------------------------------------------
(* Shapes *)
RECURSIVE Linear(_, _, _, _), Exponential(_, _, _)
\* how many times the first shape the shapes are
Linear(i, by, most, size) == IF (1 + i * (by - 1)) * size > most THEN <<>> ELSE <<1 + i * (by - 1)>> \o Linear(i + 1, by, most, size)
Exponential(k, by, most) == IF k > most THEN <<>> ELSE <<k>> \o Exponential(k * by, by, most)
Factors(r) == IF r.method = "linear" THEN Linear(0, r.by, r.most, Prod(r.min)) ELSE Exponential(1, r.by, r.most \div Prod(r.min))
RangeValid(r) == r.by > 1 /\ r.method \in {"linear", "exponential"} /\ Prod(r.min) <= r.most
\* each extent is scaled by the same amount
Scaled(shape, k) == [d \in DOMAIN shape |-> Root(Pow(shape[d], Len(shape)) * k, Len(shape))]
Shapes(r) == LET f == Factors(r) IN [n \in DOMAIN f |-> Scaled(r.min, f[n])]
ArrayShape(op) == [d \in 1..op.rank |-> Root((op.nodes * op.memory) \div (op.arrays * op.size), op.rank)]
\* memory is just, or just not, enough for arrays with extents of root
ArrayShapeLarge(op) == [d \in 1..op.rank |-> IF op.delta < 0 THEN op.root - 1 ELSE op.root]
\* the nearest whole number to e * n ^ (1 / d)
Nearest(e, n, d) == LET f == Root(Pow(2 * e, d) * n, d) IN (f + 1) \div 2
Weak(shape, n) == [d \in DOMAIN shape |-> Nearest(shape[d], n, Len(shape))]
Abs(v) == IF v < 0 THEN -v ELSE v
WeakValid(shape, n) == Abs(Prod(Weak(shape, n)) - n * Prod(shape)) * 1000 < n * Prod(shape)

Positive(s) == \A d \in DOMAIN s : s[d] > 0
Divides(shape, part) == Len(shape) = Len(part) /\ Positive(shape) /\ Positive(part) /\ \A d \in DOMAIN shape : shape[d] % part[d] = 0
Multipliers(shape, part) == [d \in DOMAIN shape |-> shape[d] \div part[d]]
Down(from, to) == [k \in 1..(from - to) |-> from - k + 1]   \* up to, but not including
Steps(from, to, step) == [k \in 1..(((to - from) \div step) + 1) |-> from + (k - 1) * step]
StepsValid(op) == Len(op.min) = Len(op.max) /\ op.step > 0 /\ op.min # <<>> /\ \A d \in DOMAIN op.min : op.min[d] <= op.max[d]
RECURSIVE Least(_)
Least(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], Least(Tail(s)))
Together(seqs) == [k \in 1..Least([d \in DOMAIN seqs |-> Len(seqs[d])]) |-> [d \in DOMAIN seqs |-> seqs[d][k]]]
----------------------------------------------------------------------------
(* Hardware: [nodes, packages, numa, cores, threads, memory], each the number per unit of the former *)
Numas(c) == c.packages * c.numa
Totals(c) == [numa_nodes |-> Numas(c), cores |-> Numas(c) * c.cores, threads |-> Numas(c) * c.cores * c.threads, memory |-> Numas(c) * c.memory]
\* a benchmark: [type, per, count, scenario, pool]
Needs(c, b) == \* least and most of cluster nodes, NUMA nodes and threads
  LET low == b.pool.min  high == Largest(b.pool) IN
  CASE b.type = "thread" -> LET n == IF b.per = "cluster_node" THEN Numas(c) ELSE 1 IN <<1, 1, n, n, low, high>>
    [] b.type = "numa_node" -> <<1, 1, low, high, c.cores, c.cores>>
    [] OTHER -> <<low, high, Numas(c), Numas(c), c.cores, c.cores>>
Physical(c, b) == IF b.type = "thread" /\ b.per = "cluster_node" THEN Totals(c).cores ELSE c.cores
BenchmarkValid(c, b) ==
  /\ b.per \in {"cluster_node", "numa_node"} /\ b.type \in {"thread", "numa_node", "cluster_node"} /\ PoolValid(b.pool)
  /\ b.type # "thread" => b.per = "numa_node"
  /\ Largest(b.pool) <= (CASE b.type = "thread" -> Physical(c, b) [] b.type = "numa_node" -> Numas(c) [] OTHER -> c.nodes)
Single(low, high) == IF low = high THEN low ELSE -1   \* -1: refused
Localities(c, b) ==
  LET n == Needs(c, b) IN
  CASE b.type = "thread" -> 1
    [] b.type = "numa_node" -> Single(n[3], n[4])
    [] OTHER -> IF n[1] = n[2] THEN n[1] * n[3] ELSE -1
Reserved(c, b) ==
  LET n == Needs(c, b) IN
  CASE b.type = "thread" -> IF b.per = "cluster_node" THEN 1 ELSE Numas(c)
    [] b.type = "numa_node" -> Numas(c)
    [] OTHER -> IF n[1] = n[2] THEN n[1] * Numas(c) ELSE -1
BenchmarkInfo(c, b) ==
  LET n == Needs(c, b) IN
  [needs |-> n, workers |-> Sizes(b.pool), physical |-> Physical(c, b), logical |-> Physical(c, b) * c.threads, localities |-> Localities(c, b),
   reserved |-> Reserved(c, b), nodes |-> Single(n[1], n[2]), numa_nodes |-> Single(n[3], n[4]), threads |-> Single(n[5], n[6]), same |-> TRUE]
----------------------------------------------------------------------------
OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
Apply(st, op) ==
  CASE op.a = "Pool" -> IF PoolValid(op.pool) THEN OK([st EXCEPT !.pool = op.pool], PoolInfo(op.pool)) ELSE Err(st)
    [] op.a = "PoolAgain" -> IF st.pool = <<>> THEN Err(st) ELSE OK(st, PoolInfo(st.pool))
    [] op.a = "PoolSize" -> IF st.pool = <<>> THEN Err(st) ELSE IF op.idx \in 0..(Len(Sizes(st.pool)) - 1) THEN OK(st, [size |-> Sizes(st.pool)[op.idx + 1]]) ELSE Err(st)
    [] op.a = "Range" -> IF RangeValid(op.range) THEN OK(st, [shapes |-> Shapes(op.range)]) ELSE Err(st)
    [] op.a = "Fixed" -> OK(st, [shapes |-> <<op.shape>>, shape |-> op.shape])
    [] op.a = "ArrayShape" -> OK(st, [shape |-> ArrayShape(op)])
    [] op.a = "ArrayShapeLarge" -> OK(st, [shape |-> ArrayShapeLarge(op)])
    [] op.a = "Weak" -> IF WeakValid(op.shape, op.workers) THEN OK(st, [shape |-> Weak(op.shape, op.workers)]) ELSE Err(st)
    [] op.a = "Multipliers" -> IF Divides(op.shape, op.part) THEN OK(st, [multipliers |-> Multipliers(op.shape, op.part)]) ELSE Err(st)
    [] op.a = "MultiplierRanges" ->
         IF ~Divides(op.shape, op.min) \/ ~Divides(op.shape, op.max) THEN Err(st)
         ELSE LET f == Multipliers(op.shape, op.min)  t == Multipliers(op.shape, op.max) IN
              IF \E d \in DOMAIN f : f[d] < t[d] THEN Err(st) ELSE OK(st, [ranges |-> [d \in DOMAIN f |-> Down(f[d], t[d])]])
    [] op.a = "ShapeRanges" -> IF StepsValid(op) THEN OK(st, [ranges |-> [d \in DOMAIN op.min |-> Steps(op.min[d], op.max[d], op.step)]]) ELSE Err(st)
    [] op.a = "PartitionShapes" -> IF StepsValid(op) THEN OK(st, [shapes |-> Together([d \in DOMAIN op.min |-> Steps(op.min[d], op.max[d], op.step)])]) ELSE Err(st)
    [] op.a = "Cluster" -> OK([st EXCEPT !.cluster = op.cluster], [totals |-> Totals(op.cluster), same |-> TRUE])
    [] op.a = "Benchmark" -> IF st.cluster # <<>> /\ BenchmarkValid(st.cluster, op.benchmark) THEN OK(st, BenchmarkInfo(st.cluster, op.benchmark)) ELSE Err(st)
    \* settings stored in a dataset and read back
    [] op.a = "Store" -> IF st.cluster # <<>> /\ BenchmarkValid(st.cluster, op.benchmark) /\ RangeValid(op.range)
                         THEN OK(st, [same |-> TRUE, workers |-> Sizes(op.benchmark.pool), shapes |-> Shapes(op.range), shape |-> op.shape,
                                      totals |-> Totals(st.cluster)]) ELSE Err(st)
----------------------------------------------------------------------------
Start(ev) == Empty
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ \E f \in DOMAIN r.ret : f \notin DOMAIN ev.ret \/ r.ret[f] # ev.ret[f] THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE {})
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret]]
=============================================================================
