---------------------------- MODULE LueArraysMC ----------------------------
(* All selections of small arrays *)
EXTENDS LueArrays, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Shapes == {<<3>>, <<2, 3>>, <<2, 2, 2>>}
Tuples(rank, S) == [1..rank -> S]
Sels == LET r == Len(st.shape) IN {[start |-> s, stride |-> t, count |-> c] : s \in Tuples(r, 0..1), t \in Tuples(r, 1..2), c \in Tuples(r, 0..2)}
Init == /\ n = 0
        /\ \E shape \in Shapes, ext \in BOOLEAN : st = Apply(Empty, [a |-> "Make", shape |-> shape, ext |-> ext, dt |-> "i32", scale |-> "1", fill |-> NoValue]).st
        /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> st, sel |-> All(st.shape)]
Next == /\ n < Bound /\ n' = n + 1
        /\ \/ \E sel \in Sels, a \in {"Write", "Fill"} :
                LET op == [a |-> a, start |-> sel.start, stride |-> sel.stride, count |-> sel.count, base |-> 10 * (n + 1)]
                    r == Apply(st, op)
                IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st, sel |-> sel]
           \/ \E shape \in Tuples(Len(st.shape), 0..3) :
                LET op == [a |-> "Resize", shape |-> shape]
                    r == Apply(st, op)
                IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st, sel |-> All(shape)]
Spec == Init /\ [][Next]_<<st, last, n>>
Cells == DOMAIN st.cells = 1..Prod(st.shape)
Refused == last.res = "err" => st = last.old
\* exactly the selected cells change, in row-major order
Exact == (last.op.a = "Write" /\ last.res = "ok") =>
  /\ \A c \in DOMAIN st.cells :
       (\E k \in 0..NrCells(last.sel) - 1 : Nr(st.shape, Selected(last.sel, k)) = c - 1) \/ st.cells[c] = last.old.cells[c]
  /\ Values(st, last.sel) = [k \in 1..NrCells(last.sel) |-> Value(last.op.base, k - 1)]
\* row-major: the order of the selected cells is the order of their numbers
RowMajor == last.res = "ok" => \A j, k \in 0..NrCells(last.sel) - 1 :
  j < k => Nr(st.shape, Selected(last.sel, j)) < Nr(st.shape, Selected(last.sel, k))
Inverse == \A k \in 0..Prod(st.shape) - 1 : Nr(st.shape, IndexOf(st.shape, k)) = k
Kept == (last.op.a = "Resize" /\ last.res = "ok") =>
  \A k \in 0..Prod(last.old.shape) - 1 : LET i == IndexOf(last.old.shape, k) IN
    Within(st.shape, i) => st.cells[Nr(st.shape, i) + 1] = last.old.cells[k + 1]
=============================================================================
