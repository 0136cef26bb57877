---------------------------- MODULE LueRastersMC ----------------------------
(* All short histories on small rasters with bands, divided into blocks *)
EXTENDS LueRasters, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
F == 0..1
Shapes == {<<2, 3>>}
Ops == {[a |-> "Create", f |-> f, shape |-> s, nb |-> 2, dt |-> "u8", tile |-> <<2, 2>>, pixel |-> TRUE, fill |-> 50, how |-> 0, refused |-> "-"] : f \in F \ Opened(st), s \in Shapes}
       \cup {[a |-> "Open", f |-> f, mode |-> m] : f \in {x \in F : st[x].open = "-"}, m \in {"ro", "rw"}}
       \cup {[a |-> "Close", f |-> f] : f \in Opened(st)}
       \cup {[a |-> "Delete", f |-> f] : f \in F \ Opened(st)}
       \cup {[a |-> "Copy", f |-> f, to |-> 1 - f, tile |-> <<0, 1>>, refused |-> "-"] : f \in {x \in Opened(st) : st[1 - x].open = "-"}}
       \cup {[a |-> "WriteBlock", f |-> f, b |-> b, at |-> at, base |-> n + 1] : f \in Opened(st), b \in 1..3, at \in (0..1) \X (0..2)}
       \cup {[a |-> "Write", f |-> f, b |-> 1, start |-> s, count |-> c, base |-> n + 1] : f \in Opened(st), s \in (0..1) \X (0..1), c \in (1..2) \X {1, 2, 3}}
       \cup {[a |-> "WriteAll", f |-> f, b |-> b, base |-> n + 1] : f \in Opened(st), b \in 1..2}
       \cup {[a |-> "ReadAll", f |-> f, b |-> b, base |-> 0] : f \in Opened(st), b \in 1..2}
       \cup {[a |-> "SetNoData", f |-> f, b |-> 1, nd |-> "3"] : f \in Opened(st)}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> Empty, ret |-> <<>>]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st, ret |-> r.ret]
Spec == Init /\ [][Next]_<<st, last, n>>
Refused == last.res = "err" => st = last.old
\* an operation concerns one file; of a raster, writing concerns a band, and a window of it
Apart == \A f \in Files : st[f] # last.old[f] => f = (IF last.op.a = "Copy" THEN last.op.to ELSE last.op.f)
OneBand == (last.res = "ok" /\ IsWrite(last.op)) =>
  LET f == last.op.f IN \A b \in DOMAIN st[f].bands : b # last.op.b => st[f].bands[b] = last.old[f].bands[b]
InWindow == (last.res = "ok" /\ last.op.a = "WriteBlock") =>
  LET f == last.op.f  w == Window(st[f], last.op.at)  y == st[f].bands[last.op.b]  z == last.old[f].bands[last.op.b] IN
  \A k \in DOMAIN y : LET i == <<(k - 1) \div 3, (k - 1) % 3>> IN
    y[k] # z[k] => \A d \in 1..2 : i[d] >= w.start[d] /\ i[d] < w.start[d] + w.count[d]
\* what is written is what is read
ReadsBack == (last.res = "ok" /\ last.op.a = "WriteBlock") =>
  LET f == last.op.f  r == Apply(st, [last.op EXCEPT !.a = "ReadBlock"]).ret.vals IN \A k \in DOMAIN r : r[k] = (last.op.base + 7 * (k - 1)) % 101
\* a raster opened for reading only stays as it is
Unmodified == \A f \in F : (last.old[f].open = "ro" /\ st[f].open = "ro") => st[f] = last.old[f]
Copied == (last.op.a = "Copy" /\ last.res = "ok") => Contents(st[last.op.to]) = Contents(st[last.op.f])
Complete == \A f \in There(st) : \A b \in DOMAIN st[f].bands : Len(st[f].bands[b]) = st[f].shape[1] * st[f].shape[2]
=============================================================================
