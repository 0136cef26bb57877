------------------------------ MODULE LueChunk ------------------------------
(* Chunks for storing object arrays: what shapes will do. Products saturate. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Upper == 1048576
Lower == 10240
Huge == 1073741824
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Huge \div b THEN Huge ELSE a * b
RECURSIVE Product(_, _)
Product(s, acc) == IF s = <<>> THEN acc ELSE Product(Tail(s), Mul(acc, Head(s)))
Bytes(shape, el) == Product(shape, el)

\* a chunk for objects arrays of this shape, with elements of so many bytes
Acceptable(shape, el, chunk, upper, lower) ==
  /\ Len(chunk) = Len(shape) + 1
  /\ \A d \in DOMAIN chunk : chunk[d] > 0
  /\ \A d \in DOMAIN shape : chunk[d + 1] <= shape[d]
  /\ Bytes(chunk, el) <= upper \/ \A d \in DOMAIN chunk : chunk[d] = 1
  /\ Bytes(shape, el) <= upper => Tail(chunk) = shape
  \* not too small: all of it, or some part that is large enough
  /\ Bytes(chunk, el) >= lower
Good(shape, el, chunk) == Acceptable(shape, el, chunk, Upper, Lower)

Empty == <<>>
Start(ev) == Empty
Judge(st, ev) ==
  LET r == ev.ret
      wrong == IF "obs" \notin DOMAIN ev THEN {"crash"}
               ELSE IF ev.res # "ok" THEN {"outcome"}
               ELSE IF ev.op.a = "Chunk" THEN
                 (IF ~Good(ev.op.shape, ev.op.el, r.chunk) THEN {"chunk"} ELSE {})
                 \cup (IF ~r.same THEN {"not the same again"} ELSE {})
               ELSE IF ~r.stored THEN {"stored"} ELSE {}
  IN [st |-> st, wrong |-> wrong, exp |-> <<>>]
=============================================================================
