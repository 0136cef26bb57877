----------------------------- MODULE LueChunkMC -----------------------------
(* The way chunks are found, with other limits: for all shapes *)
EXTENDS LueChunk, IOUtils
VARIABLES shape, el
Bound == atoi(IOEnv.BOUND)
Up == 32
Low == 4
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Root(n, k) == CHOOSE r \in 0..n : Power(r, k) <= n /\ Power(r + 1, k) > n
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* dimensions in the order of their extents
Order(s) == CHOOSE p \in [DOMAIN s -> DOMAIN s] :
  /\ \A i, j \in DOMAIN s : i # j => p[i] # p[j]
  /\ \A i, j \in DOMAIN s : i < j => s[p[i]] <= s[p[j]]
RECURSIVE Fill(_, _, _, _, _)
Fill(s, p, i, room, chunk) ==
  IF i > Len(s) THEN chunk
  ELSE LET e == Min(Max(Root(room, Len(s) - i + 1), 1), s[p[i]])
       IN Fill(s, p, i + 1, Max(room \div e, 1), [chunk EXCEPT ![p[i] + 1] = e])
Found(s, e) ==
  LET b == Bytes(s, e)
  IN IF b <= Up THEN <<Up \div b>> \o s
     ELSE Fill(s, Order(s), 1, Max(Up \div e, 1), [d \in 1..Len(s) + 1 |-> 1])
Init == \E rank \in 0..Bound : shape \in [1..rank -> 1..6] /\ el \in {1, 2, 3, 4, 7, 8, 31, 32, 33}
Next == UNCHANGED <<shape, el>>
Spec == Init /\ [][Next]_<<shape, el>>
Fits == Acceptable(shape, el, Found(shape, el), Up, Low)
=============================================================================
