------------------------------ MODULE LueTexts ------------------------------
(* An array of texts. Texts are known by their names; "nul" and "surrogate" are not texts that can be stored. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
IX == INSTANCE LueIndexing
Empty == [made |-> FALSE, texts |-> <<>>]
NoText == {"nul", "surrogate"}
Forms == {"U", "S"}            \* arrays of Unicode strings, and of byte strings
Maybe == {"list", "object"}    \* what need not be supported

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret, may |-> FALSE]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>, may |-> FALSE]
At(st, s) == IX!Positions(s, Len(st.texts))
Valid(texts) == \A k \in DOMAIN texts : texts[k] \notin NoText
Put(texts, at, new) == [p \in DOMAIN texts |-> IF \E k \in DOMAIN at : at[k] + 1 = p THEN new[CHOOSE k \in DOMAIN at : at[k] + 1 = p] ELSE texts[p]]
Apply(st, op) ==
  CASE op.a = "Make" -> OK([made |-> TRUE, texts |-> op.texts], <<>>)
    [] op.a = "Put" ->
         IF op.at.c = 0 \/ op.form \notin Forms \cup Maybe \/ ~Valid(op.texts) THEN Err(st)
         ELSE LET at == At(st, op.at) IN
              IF Len(at) # Len(op.texts) /\ Len(op.texts) # 1 THEN Err(st)
              ELSE [OK([st EXCEPT !.texts = Put(st.texts, at, IF Len(at) = Len(op.texts) THEN op.texts ELSE [k \in DOMAIN at |-> op.texts[1]])], <<>>)
                      EXCEPT !.may = op.form \in Maybe \/ op.at.c < 0 \/ Len(at) # Len(op.texts)]
    [] op.a = "Read" -> IF op.at.c = 0 THEN Err(st)
                        ELSE LET at == At(st, op.at) IN
                             [OK(st, [texts |-> [k \in DOMAIN at |-> st.texts[at[k] + 1]], kind |-> "U"]) EXCEPT !.may = op.at.c < 0]
    [] op.a \in {"PutOne", "ReadOne"} ->
         LET n == Len(st.texts)  p == (IF op.i < 0 THEN op.i + n ELSE op.i) + 1 IN
         IF p \notin 1..n THEN Err(st)
         ELSE IF op.a = "PutOne" THEN [OK([st EXCEPT !.texts[p] = op.text], <<>>) EXCEPT !.may = TRUE]
         ELSE [OK(st, [text |-> st.texts[p]]) EXCEPT !.may = TRUE]
    [] op.a = "Expand" -> OK([st EXCEPT !.texts = st.texts \o op.texts], <<>>)
    [] op.a = "Reopen" -> OK(st, <<>>)
----------------------------------------------------------------------------
Start(ev) == Empty
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      refused == r.may /\ ev.res = "err"
      new == IF refused THEN st ELSE r.st
      wrong == (IF ev.res # r.res /\ ~refused THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ \E f \in DOMAIN r.ret : r.ret[f] # ev.ret[f] THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE IF ev.obs.texts # new.texts THEN {"contents"} ELSE {})
  IN [st |-> new, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, texts |-> new.texts, may |-> r.may]]
=============================================================================
