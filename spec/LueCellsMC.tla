---------------------------- MODULE LueCellsMC ----------------------------
(* All short histories of writing blocks, on small rasters *)
EXTENDS LueCells, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
There == UNION {{<<r, m>> : m \in DOMAIN st[r].layers} : r \in Made(st)}
Blocks(shape) == {[start |-> s, count |-> c] : s \in [DOMAIN shape -> 0..1], c \in [DOMAIN shape -> 1..2]}
\* blocks that stick out are left out, but for one
Fit(shape) == {b \in Blocks(shape) : \A d \in DOMAIN shape : b.start[d] + b.count[d] <= shape[d]}
              \cup {[start |-> [d \in DOMAIN shape |-> 1], count |-> [d \in DOMAIN shape |-> 9]]}
Ops == {[a |-> "Create", r |-> r, kind |-> k, grid |-> <<1, 2>>, nt |-> IF k = "constant" THEN 1 ELSE 2] : r \in Rasters, k \in {"constant", "variable"}}
       \cup {[a |-> "Open", r |-> r, v |-> 1] : r \in Made(st)}
       \cup {[a |-> "AddLayer", r |-> r, v |-> 0, name |-> m, dt |-> "i32", scale |-> "1", how |-> 0, fill |-> IF st[r].kind = "constant" THEN 99 ELSE A!NoValue] :
             r \in Made(st), m \in {"a", "b"}}
       \cup UNION {{[a |-> "Write", r |-> x[1], v |-> v, name |-> x[2], start |-> b.start, stride |-> [d \in DOMAIN b.start |-> 1], count |-> b.count, base |-> n + 1] :
                    v \in Views, b \in Fit(st[x[1]].layers[x[2]].shape)} : x \in There}
       \cup {[a |-> "Reopen"]}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> Empty]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Refused == last.res = "err" => st = last.old
\* writing changes the cells of one layer only, and of a layer those of the block only
Apart == \A x \in There : (x[1] \in Made(last.old) /\ x[2] \in DOMAIN last.old[x[1]].layers) =>
  LET y == st[x[1]].layers[x[2]]  z == last.old[x[1]].layers[x[2]] IN
  y # z => /\ last.op.a = "Write" /\ last.op.r = x[1] /\ last.op.name = x[2]
           /\ \A k \in DOMAIN y.cells : y.cells[k] # z.cells[k] =>
                LET i == A!IndexOf(y.shape, k - 1) IN \A d \in DOMAIN i : i[d] >= last.op.start[d] /\ i[d] < last.op.start[d] + last.op.count[d]
Shaped == \A x \in There : LET y == st[x[1]].layers[x[2]] IN y.shape = Shape(st[x[1]]) /\ Len(y.cells) = A!Prod(y.shape)
Known1 == \A r \in Made(st) : \A v \in Views : st[r].known[v + 1] \subseteq DOMAIN st[r].layers
=============================================================================
