---------------------------- MODULE LueBlocksMC ----------------------------
(* For all rasters and blocks, also larger ones: each cell is in exactly one block *)
EXTENDS LueBlocks, IOUtils
VARIABLES raster, block
Bound == atoi(IOEnv.BOUND)
Init == raster \in [1..2 -> 0..Bound] /\ block \in [1..2 -> 1..Bound + 2]
Next == UNCHANGED <<raster, block>>
Spec == Init /\ [][Next]_<<raster, block>>
Blocks == LET s == ShapeInBlocks(raster, block) IN (0..s[1] - 1) \X (0..s[2] - 1)
Cells(b) == LET v == ValidShape(raster, block, b) IN
  {<<b[1] * block[1] + i, b[2] * block[2] + j>> : i \in 0..v[1] - 1, j \in 0..v[2] - 1}
All == (0..raster[1] - 1) \X (0..raster[2] - 1)
Covered == UNION {Cells(b) : b \in Blocks} = All
Once == \A b, c \in Blocks : b # c => Cells(b) \cap Cells(c) = {}
Positive == \A b \in Blocks : \A d \in 1..2 : ValidShape(raster, block, b)[d] \in 1..block[d]
Fewest == \A d \in 1..2 : raster[d] > 0 => (ShapeInBlocks(raster, block)[d] - 1) * block[d] < raster[d]
=============================================================================
