---------------------------- MODULE LueIndexing ----------------------------
(* Arrays indexed from Python, with what NumPy does as the norm. Cells hold numbers of quarters; large powers of two are
   10^9 + exponent. The oracle is itself compared with NumPy in every event. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == 99999                  \* absent part of a slice
Big == 1000000000
Empty == [made |-> FALSE, shape |-> <<>>, t |-> "", cells |-> <<>>]

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
----------------------------------------------------------------------------
(* An index per dimension, or less. An integer [k |-> "i", v] selects a cell, a slice [k |-> "s", a, b, c] selects cells
   from a up to b in steps of c, all of which can be absent and a and b negative. *)
Clip(v, n, low, high) == LET w == IF v < 0 THEN v + n ELSE v IN Max2(low, Min2(w, high))
First(s, n) == IF s.c > 0 THEN (IF s.a = None THEN 0 ELSE Clip(s.a, n, 0, n)) ELSE (IF s.a = None THEN n - 1 ELSE Clip(s.a, n, -1, n - 1))
Last(s, n) == IF s.c > 0 THEN (IF s.b = None THEN n ELSE Clip(s.b, n, 0, n)) ELSE (IF s.b = None THEN -1 ELSE Clip(s.b, n, -1, n - 1))
Length(s, n) ==
  LET f == First(s, n)  l == Last(s, n) IN
  IF s.c > 0 THEN (IF f >= l THEN 0 ELSE ((l - f - 1) \div s.c) + 1) ELSE (IF f <= l THEN 0 ELSE ((f - l - 1) \div (-(s.c))) + 1)
Step(s) == IF s.c = None THEN [s EXCEPT !.c = 1] ELSE s
\* the positions selected in a dimension of n cells
Positions(c, n) ==
  IF c.k = "i" THEN <<IF c.v < 0 THEN c.v + n ELSE c.v>>
  ELSE LET s == Step(c) IN [k \in 1..Length(s, n) |-> First(s, n) + (k - 1) * s.c]
All == [k |-> "s", a |-> None, b |-> None, c |-> None]
Full(ix, rank) == [d \in 1..rank |-> IF d <= Len(ix) THEN ix[d] ELSE All]
Outside(ix, shape) == Len(ix) > Len(shape) \/ \E d \in DOMAIN ix : ix[d].k = "i" /\ (ix[d].v >= shape[d] \/ ix[d].v < -(shape[d]))
ZeroStep(ix) == \E d \in DOMAIN ix : ix[d].k = "s" /\ ix[d].c = 0
Reversed(ix) == \E d \in DOMAIN ix : ix[d].k = "s" /\ ix[d].c < 0
Usable(ix, shape) == ~Outside(ix, shape) /\ ~ZeroStep(ix)

\* selection: positions per dimension. Its cells are ordered by row.
Selection(ix, shape) == LET f == Full(ix, Len(shape)) IN [d \in DOMAIN shape |-> Positions(f[d], shape[d])]
RECURSIVE Erase(_, _)
Erase(ix, lens) == IF lens = <<>> THEN <<>> ELSE (IF Head(ix).k = "i" THEN <<>> ELSE <<Head(lens)>>) \o Erase(Tail(ix), Tail(lens))
ShapeOf(ix, shape) == LET f == Full(ix, Len(shape))  sel == Selection(ix, shape) IN Erase(f, [d \in DOMAIN shape |-> Len(sel[d])])
RECURSIVE Numbers(_, _)
\* numbers (from 0) of the selected cells
Numbers(sel, shape) ==
  IF shape = <<>> THEN <<0>>
  ELSE LET rest == Numbers(Tail(sel), Tail(shape))
           n == Len(rest)  p == Prod(Tail(shape))
       IN [k \in 1..(Len(sel[1]) * n) |-> sel[1][((k - 1) \div n) + 1] * p + rest[((k - 1) % n) + 1]]
Cells(ix, shape) == Numbers(Selection(ix, shape), shape)
----------------------------------------------------------------------------
(* Values *)
IsFloat(t) == t \in {"f32", "f64"}
Bits(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] t \in {"i32", "u32"} -> 32 [] OTHER -> 64
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
\* whether an integer fits
Fits(t, v) ==
  \/ IsFloat(t)
  \/ IF v >= Big THEN v - Big < Bits(t) - (IF Signed(t) THEN 1 ELSE 0)
     ELSE LET w == v \div 4 IN
          CASE t = "u8" -> w \in 0..255
            [] t = "i8" -> w \in -128..127
            [] t = "u16" -> w \in 0..65535
            [] t = "i16" -> w \in -32768..32767
            [] t \in {"u32", "u64"} -> w >= 0
            [] OTHER -> TRUE
Truncated(v) == IF v >= Big THEN v ELSE IF v >= 0 THEN (v \div 4) * 4 ELSE -(((-(v)) \div 4) * 4)
Stored(t, v) == IF IsFloat(t) THEN v ELSE Truncated(v)
IsScalar(val) == val.k # "arr" \/ val.shape = <<>>
\* superfluous dimensions of size one
RECURSIVE Drop(_, _)
Drop(s, rank) == IF Len(s) > rank /\ Head(s) = 1 THEN Drop(Tail(s), rank) ELSE s
Matches(val, shape) == IsScalar(val) \/ val.shape = shape
Broadcasts(val, shape) ==
  IsScalar(val) \/ LET s == Drop(val.shape, Len(shape))  off == Len(shape) - Len(s) IN
     off >= 0 /\ \A d \in DOMAIN s : s[d] = 1 \/ s[d] = shape[d + off]
\* k-th (from 0) cell of what is assigned to a selection of this shape
RECURSIVE At(_, _, _)
At(s, shape, k) == \* number of the cell of an array of shape s that goes with number k of an array of that shape. Same rank.
  IF s = <<>> THEN 0
  ELSE LET p == Prod(Tail(shape)) IN (IF Head(s) = 1 THEN 0 ELSE (k \div p) * Prod(Tail(s))) + At(Tail(s), Tail(shape), k % p)
\* LUE also takes arrays whose dimensions of size one are others than those of the selection, and arrays of rank one
\* with all values of a selection
Squeezed(s) == SelectSeq(s, LAMBDA e : e # 1)
Laid(val, shape) == val.k = "arr" /\ (Squeezed(val.shape) = Squeezed(shape) \/ (Len(val.shape) = 1 /\ val.shape[1] = Prod(shape)))
ValueAt(val, shape, k) ==
  IF val.k # "arr" THEN val.v ELSE IF Laid(val, shape) THEN val.v + val.q * k
  ELSE LET s == Drop(val.shape, Len(shape))
           wide == [d \in DOMAIN shape |-> LET off == Len(shape) - Len(s) IN IF d <= off THEN 1 ELSE s[d - off]]
       IN val.v + val.q * At(wide, shape, k)
----------------------------------------------------------------------------
(* may: the implementation need not support it, but then it has to refuse and leave everything as it is *)
OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret, may |-> FALSE, exc |-> ""]
Err(st, exc) == [st |-> st, res |-> "err", ret |-> <<>>, may |-> FALSE, exc |-> exc]
Refusal(st, ix) == Err(st, IF Outside(ix, st.shape) /\ ~ZeroStep(ix) /\ ~Reversed(ix) THEN "IndexError" ELSE "")
Apply(st, op) ==
  CASE op.a = "Make" -> OK([made |-> TRUE, shape |-> op.shape, t |-> op.t, cells |-> [k \in 1..Prod(op.shape) |-> 4 * (op.base + k - 1)]], <<>>)
    [] op.a = "Get" ->
         IF ~Usable(op.ix, st.shape) THEN Refusal(st, op.ix)
         ELSE LET c == Cells(op.ix, st.shape) IN
              [OK(st, [got |-> [shape |-> ShapeOf(op.ix, st.shape), t |-> st.t, v |-> [k \in DOMAIN c |-> st.cells[c[k] + 1]]]])
                 EXCEPT !.may = Reversed(op.ix)]
    [] op.a = "Set" ->
         IF ~Usable(op.ix, st.shape) THEN Refusal(st, op.ix)
         ELSE IF op.val.k = "int" /\ ~Fits(st.t, op.val.v) THEN Err(st, "")
         ELSE LET shape == ShapeOf(op.ix, st.shape)  c == Cells(op.ix, st.shape) IN
              IF ~Broadcasts(op.val, shape) /\ ~Laid(op.val, shape) THEN Err(st, "")
              ELSE LET new == [n \in {c[k] : k \in DOMAIN c} |-> LET k == CHOOSE k \in DOMAIN c : c[k] = n IN Stored(st.t, ValueAt(op.val, shape, k - 1))]
                   IN [OK([st EXCEPT !.cells = [n \in DOMAIN st.cells |-> IF (n - 1) \in DOMAIN new THEN new[n - 1] ELSE st.cells[n]]], <<>>)
                         EXCEPT !.may = Reversed(op.ix) \/ ~Matches(op.val, shape)]
    [] op.a = "Bad" -> Err(st, "")
    [] op.a = "Info" -> OK(st, [shape |-> st.shape, t |-> st.t])
    [] op.a = "Reopen" -> OK(st, <<>>)
----------------------------------------------------------------------------
Start(ev) == Empty
Contents(st) == [shape |-> st.shape, t |-> st.t, v |-> st.cells]
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      refused == r.may /\ ev.res = "err"
      new == IF refused THEN st ELSE r.st
      \* NumPy itself treats superfluous dimensions differently, depending on what they are assigned to
      doubtful == ev.op.a = "Set" /\ r.may /\ ev.op.val.k = "arr" /\
                  LET s == ShapeOf(ev.op.ix, st.shape) IN Len(ev.op.val.shape) > Len(s) \/ (Laid(ev.op.val, s) /\ ~Broadcasts(ev.op.val, s))
      wrong == (IF ev.res # r.res /\ ~refused THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "err" /\ r.res = "err" /\ r.exc # "" /\ ev.ret.exc # r.exc THEN {"kind of exception"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ \E f \in DOMAIN r.ret : r.ret[f] # ev.ret[f] THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE IF ev.obs.lue # Contents(new) THEN {"contents"} ELSE {})
               \cup (IF "obs" \in DOMAIN ev /\ ev.op.a \in {"Get", "Set"} /\ ~doubtful /\ (ev.ret.np.res # r.res \/ (r.exc # "" /\ ev.ret.np.exc # r.exc)
                         \/ (ev.op.a = "Get" /\ r.res = "ok" /\ ev.ret.np.got # r.ret.got)) THEN {"NumPy, according to the specification"} ELSE {})
               \cup (IF "obs" \in DOMAIN ev /\ ev.res = r.res /\ ~doubtful /\ ev.obs.np # Contents(new) THEN {"NumPy, according to the specification"} ELSE {})
  IN [st |-> new, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, cells |-> new.cells, may |-> r.may]]
=============================================================================
