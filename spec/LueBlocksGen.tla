---------------------------- MODULE LueBlocksGen ----------------------------
(* Random rasters and blocks *)
EXTENDS LueBlocks, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.DEPTH)
One(S) == {TLCEval(RandomElement(S))}
Largest == 2147483647
Min(a, b) == IF a < b THEN a ELSE b
Extent(c) ==
  CASE c = 1 -> RandomElement(0..3)
    [] c = 2 -> RandomElement(1..24)
    [] c = 3 -> RandomElement({15, 16, 17, 31, 32, 33, 255, 256, 257, 511, 512, 513})
    [] c = 4 -> RandomElement(1..1000000)
    [] c = 5 -> Largest - RandomElement(0..300)
    [] c = 6 -> RandomElement(1000000000..Largest)
Block(n, c) ==
  IF n = 0 THEN 0
  ELSE CASE c = 1 -> 1
         [] c = 2 -> n
         [] c = 3 -> RandomElement(1..n)
         [] c = 4 -> Min(n, RandomElement(1..4))
         [] c = 5 -> Min(n, RandomElement({16, 128, 256, 512}))
         [] c = 6 -> (n \div 2) + RandomElement(0..1)
         \* larger than the raster
         [] c = 7 -> RandomElement({128, 256, 512, 2000000000, Largest})
BlockOf(n, c) == LET b == Block(n, c) IN IF n > 0 /\ b = 0 THEN n ELSE b
Do(op) == hist' = Append(hist, op)
Near(s) == IF s = 0 THEN 0 ELSE RandomElement(0..(Min(s, 3) - 1))
Next == /\ Len(hist) < Depth
        /\ \E c1 \in One(1..6), c2 \in One(1..6), b1 \in One(1..7), b2 \in One(1..7) :
           \E raster \in {TLCEval(<<Extent(c1), Extent(c2)>>)} :
           \E block \in {TLCEval(<<BlockOf(raster[1], b1), BlockOf(raster[2], b2)>>)} :
           \E s \in {TLCEval(ShapeInBlocks(raster, block))} :
             IF s[1] < 40 /\ s[2] < 40 /\ RandomElement(1..3) = 1 THEN Do([a |-> "Divide", raster |-> raster, block |-> block])
             ELSE IF s[1] = 0 \/ s[2] = 0 THEN UNCHANGED hist
             ELSE Do([a |-> "Valid", raster |-> raster, block |-> block, at |-> <<Near(s[1]), Near(s[2])>>,
                      last |-> <<RandomElement(1..2) = 1, RandomElement(1..2) = 1>>])
Init == hist = <<>>
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<hist>>
=============================================================================
