--------------------------- MODULE LueAttributes ---------------------------
(* Attributes of objects. A value has a kind (a numeric type, "text", or "v:" and a type for a sequence) and consists of
   a sequence: of the number, of the pieces of a text, or of the numbers. An empty text may be refused. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Objs == {"root", "g", "gh", "d"}
None == [n \in {} |-> <<>>]
Empty == [rw |-> TRUE, at |-> [o \in Objs |-> None]]
Has(st, o, n) == n \in DOMAIN st.at[o]
Put(st, o, n, val) == [st EXCEPT !.at[o] = [m \in DOMAIN st.at[o] \cup {n} |-> IF m = n THEN val ELSE st.at[o][m]]]
Val(op) == [k |-> op.k, v |-> op.v]
OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]

\* what may happen: a set of outcomes
Outcomes(st, op) ==
  CASE op.a = "Write" ->
         IF ~st.rw THEN {Err(st)}
         ELSE {OK(Put(st, op.o, op.n, Val(op)), <<>>)} \cup (IF op.v = <<>> /\ op.k = "text" THEN {Err(st)} ELSE {})
    [] op.a \in {"Create", "Add"} ->
         IF ~st.rw \/ Has(st, op.o, op.n) THEN {Err(st)}
         ELSE {OK(Put(st, op.o, op.n, Val(op)), <<>>)} \cup (IF op.v = <<>> /\ op.k = "text" THEN {Err(st)} ELSE {})
    [] op.a = "Read" -> {IF Has(st, op.o, op.n) THEN OK(st, [val |-> st.at[op.o][op.n]]) ELSE Err(st)}
    [] op.a = "Exists" -> {OK(st, [is |-> Has(st, op.o, op.n)])}
    [] op.a = "Type" -> {IF Has(st, op.o, op.n) THEN OK(st, [k |-> st.at[op.o][op.n].k]) ELSE Err(st)}
    [] op.a = "Reopen" -> {OK([st EXCEPT !.rw = op.rw], <<>>)}
    [] op.a = "Flush" -> {OK(st, <<>>)}

----------------------------------------------------------------------------
Start(ev) == Empty
\* a sequence or a scalar of the same type: told apart by Exists and Read
RetOK(r, ev) == r.ret = <<>> \/ \A f \in DOMAIN r.ret : f \in DOMAIN ev.ret /\ ev.ret[f] = r.ret[f]
SameTable(st, obs) == \A o \in Objs :
  /\ DOMAIN obs.at[o] = DOMAIN st.at[o]
  /\ \A n \in DOMAIN st.at[o] : obs.at[o][n] = st.at[o][n]
Judge(st, ev) ==
  LET all == Outcomes(st, ev.op)
      fit == {r \in all : r.res = ev.res}
      r == IF fit = {} THEN CHOOSE x \in all : TRUE ELSE CHOOSE x \in fit : TRUE
      wrong == (IF fit = {} THEN {"outcome"} ELSE IF ~RetOK(r, ev) /\ r.res = "ok" THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
                     ELSE (IF ~SameTable(r.st, ev.obs) THEN {"attributes"} ELSE {})
                          \cup (IF ev.obs.left # 0 THEN {"left open"} ELSE {}))
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, st |-> r.st]]
=============================================================================
