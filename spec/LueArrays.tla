----------------------------- MODULE LueArrays -----------------------------
(* An array with a shape and a value per cell. Cells are numbered in row-major order, from 0. Cells that were never
   written have no value (-1), unless the array has a fill value. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

NoValue == -1
Unlimited == 100
Empty == [made |-> FALSE]

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* number of the cell at an index, and the index of a numbered cell, in an array of this shape
RECURSIVE CellNr(_, _, _)
CellNr(shape, idx, acc) == IF shape = <<>> THEN acc ELSE CellNr(Tail(shape), Tail(idx), acc * Head(shape) + Head(idx))
Nr(shape, idx) == CellNr(shape, idx, 0)
IndexOf(shape, k) == [d \in DOMAIN shape |-> (k \div Prod(SubSeq(shape, d + 1, Len(shape)))) % shape[d]]
Within(shape, idx) == \A d \in DOMAIN shape : idx[d] < shape[d]

\* Selections: [start, stride, count]
NrCells(sel) == IF sel.count = <<>> THEN 0 ELSE Prod(sel.count)
\* index in the array of the k-th cell selected
Selected(sel, k) == LET i == IndexOf(sel.count, k) IN [d \in DOMAIN i |-> sel.start[d] + sel.stride[d] * i[d]]
Positive(sel) == \A d \in DOMAIN sel.stride : sel.stride[d] > 0
Inside(shape, sel) == NrCells(sel) = 0 \/ \A d \in DOMAIN shape : sel.start[d] + sel.stride[d] * (sel.count[d] - 1) < shape[d]
All(shape) == [start |-> [d \in DOMAIN shape |-> 0], stride |-> [d \in DOMAIN shape |-> 1], count |-> shape]
SelOf(st, op) == IF op.a \in {"WriteAll", "ReadAll"} THEN All(st.shape) ELSE [start |-> op.start, stride |-> op.stride, count |-> op.count]
Usable(st, sel) == Positive(sel) /\ Inside(st.shape, sel)

\* cells with the values of a selection replaced: val(k) is the k-th value
Replace(st, sel, val(_)) ==
  LET at == {Nr(st.shape, Selected(sel, k)) : k \in 0..NrCells(sel) - 1}
      which(c) == CHOOSE k \in 0..NrCells(sel) - 1 : Nr(st.shape, Selected(sel, k)) = c
  IN [c \in DOMAIN st.cells |-> IF (c - 1) \in at THEN val(which(c - 1)) ELSE st.cells[c]]
Values(st, sel) == [k \in 1..NrCells(sel) |-> st.cells[Nr(st.shape, Selected(sel, k - 1)) + 1]]
Value(base, k) == (base + 7 * k) % 101

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]

Resized(st, shape) ==
  [c \in 1..Prod(shape) |-> LET i == IndexOf(shape, c - 1) IN
     IF Within(st.shape, i) THEN st.cells[Nr(st.shape, i) + 1] ELSE st.fill]

Apply(st, op) ==
  CASE op.a = "Make" -> OK([made |-> TRUE, shape |-> op.shape, ext |-> op.ext, dt |-> op.dt, scale |-> op.scale, fill |-> op.fill,
                            cells |-> [c \in 1..Prod(op.shape) |-> op.fill]], <<>>)
    [] op.a \in {"Write", "WriteAll"} -> LET sel == SelOf(st, op) IN
         IF ~Usable(st, sel) THEN Err(st)
         ELSE OK([st EXCEPT !.cells = Replace(st, sel, LAMBDA k : Value(op.base, k))], <<>>)
    [] op.a = "Fill" -> LET sel == SelOf(st, op) IN
         IF ~Usable(st, sel) THEN Err(st)
         ELSE OK([st EXCEPT !.cells = Replace(st, sel, LAMBDA k : op.base)], <<>>)
    [] op.a \in {"Read", "ReadAll"} -> LET sel == SelOf(st, op) IN
         IF ~Usable(st, sel) THEN Err(st) ELSE OK(st, [vals |-> Values(st, sel)])
    [] op.a = "Resize" -> IF st.ext THEN OK([st EXCEPT !.shape = op.shape, !.cells = Resized(st, op.shape)], <<>>) ELSE Err(st)
    [] op.a = "Reopen" -> OK(st, <<>>)
    [] op.a = "Sel" -> LET sel == [start |-> op.start, stride |-> op.stride, count |-> op.count]
                           none == op.count = <<>> \/ 0 \in {op.count[d] : d \in DOMAIN op.count} \/ ~Positive(sel)
                       IN OK(st, [n |-> IF none THEN 0 ELSE NrCells(sel), empty |-> none, rank |-> Len(op.start)])
    [] op.a = "Center" -> OK(st, [start |-> [d \in 1..2 |-> op.center[d] - op.window[d] \div 2], stride |-> <<1, 1>>, count |-> op.window])
    [] op.a = "Size" -> OK(st, [n |-> Prod(op.shape) * (IF op.el = 0 THEN 1 ELSE op.el)])

----------------------------------------------------------------------------
Start(ev) == Empty
SameValues(exp, got) == Len(exp) = Len(got) /\ \A k \in DOMAIN exp : exp[k] = NoValue \/ exp[k] = got[k]
RetOK(r, ev) == IF "vals" \in DOMAIN r.ret THEN "spill" \notin DOMAIN ev.ret /\ SameValues(r.ret.vals, ev.ret.vals)
                ELSE r.ret = <<>> \/ \A f \in DOMAIN r.ret : ev.ret[f] = r.ret[f]
\* reading what has no value may be refused
MayFail(r) == "vals" \in DOMAIN r.ret /\ \E k \in DOMAIN r.ret.vals : r.ret.vals[k] = NoValue
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      t == r.st
      wrong ==
        (IF ev.res # r.res /\ ~(ev.res = "err" /\ MayFail(r)) THEN {"outcome"} ELSE {})
        \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~RetOK(r, ev) THEN {"returned"} ELSE {})
        \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
              ELSE IF ~t.made THEN {}
              ELSE (IF ev.obs.shape # t.shape \/ ev.obs.lshape # t.shape THEN {"shape"} ELSE {})
                   \cup (IF ~SameValues(t.cells, ev.obs.cells) THEN {"cells"} ELSE {}))
  IN [st |-> t, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, st |-> t]]
=============================================================================
