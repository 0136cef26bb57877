------------------------------ MODULE LueTypes ------------------------------
(* Value types: what they describe. Slots hold types. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slots == 0..5
Numeric == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
Size == [i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, f32 |-> 4, f64 |-> 8]
NativeName == [i8 |-> "H5T_NATIVE_INT8", u8 |-> "H5T_NATIVE_UINT8", i16 |-> "H5T_NATIVE_INT16", u16 |-> "H5T_NATIVE_UINT16",
  i32 |-> "H5T_NATIVE_INT32", u32 |-> "H5T_NATIVE_UINT32", i64 |-> "H5T_NATIVE_INT64", u64 |-> "H5T_NATIVE_UINT64",
  f32 |-> "H5T_NATIVE_FLOAT", f64 |-> "H5T_NATIVE_DOUBLE"]
StandardName == [i8 |-> "H5T_STD_I8LE", u8 |-> "H5T_STD_U8LE", i16 |-> "H5T_STD_I16LE", u16 |-> "H5T_STD_U16LE",
  i32 |-> "H5T_STD_I32LE", u32 |-> "H5T_STD_U32LE", i64 |-> "H5T_STD_I64LE", u64 |-> "H5T_STD_U64LE",
  f32 |-> "H5T_IEEE_F32LE", f64 |-> "H5T_IEEE_F64LE"]
Floats == {"f32", "f64"}
Unsigneds == {"u8", "u16", "u32", "u64"}
Signeds == {"i8", "i16", "i32", "i64"}

\* A type is described by its kind: a number (with its byte order), a text of a number of bytes (0: any) with a
\* character set, a compound of a number of bytes, or something else by its name. Little endian is native here.
Num(t, order) == [c |-> "num", t |-> t, order |-> order]
Text(n, cs) == [c |-> "text", n |-> n, cs |-> cs]
Other(what, n) == [c |-> "other", what |-> what, n |-> n]
NoType == [c |-> "none"]
Empty == [s \in Slots |-> NoType]

Of(base) ==
  CASE base.b \in {"native", "std", "native-traits", "std-traits", "native-id"} -> Num(base.t, "le")
    [] base.b = "be" -> Num(base.t, "be")
    [] base.b = "text" -> Text(base.n, "utf8")
    [] base.b = "ascii" -> Text(base.n, "ascii")
    [] base.b \in {"vtext", "vtext-native", "vtext-std"} -> Text(0, "utf8")
    [] base.b = "compound" -> Other("compound", base.n)
    [] base.b = "long" -> Other("long double", 16)

IsNative(d) == d.c = "num" /\ d.order = "le"
IsText(d) == d.c = "text"
Bytes(d) == CASE d.c = "num" -> Size[d.t] [] d.c = "text" -> IF d.n = 0 THEN 8 ELSE d.n [] OTHER -> d.n
Is(d, S) == d.c = "num" /\ d.order = "le" /\ d.t \in S
Describe(d) ==
  [size |-> Bytes(d),
   class |-> CASE d.c = "num" -> (IF d.t \in Floats THEN "float" ELSE "integer") [] d.c = "text" -> "string"
             [] d.what = "compound" -> "compound" [] OTHER -> "float",
   native |-> IsNative(d), standard |-> IsNative(d), string |-> IsText(d),
   nunsigned |-> Is(d, Unsigneds), nsigned |-> Is(d, Signeds), nfloat |-> Is(d, Floats),
   sunsigned |-> Is(d, Unsigneds), ssigned |-> Is(d, Signeds), sfloat |-> Is(d, Floats),
   nname |-> IF IsText(d) THEN "string" ELSE IF IsNative(d) THEN NativeName[d.t] ELSE "-",
   sname |-> IF IsText(d) THEN "string" ELSE IF IsNative(d) THEN StandardName[d.t] ELSE "-",
   enc |-> IF IsText(d) THEN d.cs ELSE "-"]
Mappable(d) == IsNative(d) \/ IsText(d)

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
Apply(st, op) ==
  CASE op.a = "Make" -> OK([st EXCEPT ![op.to] = Of(op.base)], <<>>)
    \* to a file type, to a memory type, written down and read again, copied: the same
    [] op.a \in {"File", "Memory", "Recode", "Copy", "Stored", "StoredAtt"} -> OK([st EXCEPT ![op.to] = st[op.from]], <<>>)
    [] op.a = "Resize" -> OK([st EXCEPT ![op.to].n = op.n], <<>>)
    [] op.a = "BadText" -> Err(st)
    [] op.a = "Describe" -> OK(st, Describe(st[op.from]))
    [] op.a = "Compare" -> LET e == st[op.from] = st[op.other] IN OK(st, [eq |-> e, ne |-> ~e, ordered |-> IF e THEN 0 ELSE 1])
    [] op.a = "Trip" -> OK(st, [vals |-> op.vals])
    [] op.a = "Decode" -> Err(st)

----------------------------------------------------------------------------
Start(ev) == Empty
RetOK(r, ev) == r.ret = <<>> \/ \A f \in DOMAIN r.ret : f \in DOMAIN ev.ret /\ ev.ret[f] = r.ret[f]
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ ~RetOK(r, ev) THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"}
                     ELSE {"type" : s \in {x \in Slots : ev.obs.slot[x + 1] # r.st[x]}})
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, st |-> r.st]]
=============================================================================
