---------------------------- MODULE LueClocksMC ----------------------------
(* All triples of clocks: by unit, number of units, and epoch *)
EXTENDS LueClocks, IOUtils
VARIABLES c
Bound == atoi(IOEnv.BOUND)
Epochs == {e \in [kind : {"common_era", "formation_of_earth"}, origin : {"-", "x", "y"}, cal : {"-", "gregorian"}] : IsEpoch(e)}
TextNr(t) == CASE t = "-" -> 0 [] t = "common_era" -> 1 [] t = "formation_of_earth" -> 2 [] t = "gregorian" -> 3 [] t = "x" -> 4 [] t = "y" -> 5
Key(k) == <<UnitNr(k.unit), k.n, TextNr(k.e.kind), TextNr(k.e.origin), TextNr(k.e.cal)>>
RECURSIVE Before(_, _)
Before(x, y) == x # <<>> /\ (Head(x) < Head(y) \/ (Head(x) = Head(y) /\ Before(Tail(x), Tail(y))))
Less(x, y) == Before(Key(x), Key(y))
All == {Clock(e, u, n) : e \in Epochs, u \in {"second", "year"}, n \in 0..Bound}
Init == c = <<>>
Next == Len(c) < 3 /\ \E x \in All : c' = Append(c, x)
Spec == Init /\ [][Next]_c
\* looking at units and numbers without giving one precedence, as was done before
OldLess(x, y) == UnitNr(x.unit) < UnitNr(y.unit) \/ x.n < y.n
Orders == Related(c, [i \in DOMAIN c |-> [j \in DOMAIN c |-> Less(c[i], c[j])]],
                     [i \in DOMAIN c |-> [j \in DOMAIN c |-> c[i] = c[j]]], [i \in DOMAIN c |-> [j \in DOMAIN c |-> c[i] # c[j]]])
=============================================================================
