---------------------------- MODULE LueChunkGen ----------------------------
(* Random shapes *)
EXTENDS LueChunk, Integers, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
One(S) == {TLCEval(RandomElement(S))}
Near(n) == RandomElement({n - 1, n, n + 1})
Extent(c) ==
  CASE c = 1 -> RandomElement(1..3)
    [] c = 2 -> RandomElement(1..20)
    [] c = 3 -> RandomElement(1..1000)
    [] c = 4 -> RandomElement(1..5000000)
    [] c = 5 -> Near(RandomElement({2, 128, 256, 512, 1024, 10240, 65536, 131072, 262144, 524288, 1048576}))
    [] c = 6 -> RandomElement(1..1000000000)
\* of a rank, and with extents of a kind or of all kinds
Shape(rank, c) == [d \in 1..rank |-> Extent(IF c = 7 THEN RandomElement(1..6) ELSE IF c = 8 THEN RandomElement(1..2) ELSE IF c = 9 THEN RandomElement({1, 4}) ELSE c)]
Rank(c) == IF RandomElement(1..4) = 1 THEN RandomElement(0..24) ELSE RandomElement(0..5)
El(c) == IF RandomElement(1..3) # 1 THEN RandomElement({1, 2, 4, 8}) ELSE IF RandomElement(1..3) = 1 THEN RandomElement({16, 1000, 10239, 10240, 1048575, 1048576, 1048577, 5000000}) ELSE RandomElement(1..100)
\* sizes that fit in a number of 63 bits
RECURSIVE Bits(_)
Bits(n) == IF n <= 1 THEN 0 ELSE 1 + Bits((n + 1) \div 2)
RECURSIVE AllBits(_)
AllBits(s) == IF s = <<>> THEN 0 ELSE Bits(Head(s)) + AllBits(Tail(s))
Do(op) == hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \E c \in One(1..9) : \E rank \in {TLCEval(Rank(c))} : \E shape \in {TLCEval(Shape(rank, c))}, el \in {TLCEval(El(c))} :
             IF AllBits(shape) + Bits(el) > 62 THEN UNCHANGED hist
             ELSE Do([a |-> IF RandomElement(1..12) = 1 /\ Len(shape) < 12 THEN "Store" ELSE "Chunk", shape |-> shape, el |-> el])
Init == hist = <<>>
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<hist>>
=============================================================================
