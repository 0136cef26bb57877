# An array of LUE and an array of NumPy, with the same contents, indexed the same way
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run_histories, HistoryError
import numpy as np
import lue.data_model as ldm

NONE, HUGE = 99999, 77777
DTYPE = {"u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "u64": np.uint64, "i8": np.int8, "i16": np.int16,
         "i32": np.int32, "i64": np.int64, "f32": np.float32, "f64": np.float64}
NAME = {np.dtype(v): k for k, v in DTYPE.items()}


def quarters(x):
    """Number of quarters; powers of two that are too large for TLC: 10^9 + exponent"""
    x = x.item() if hasattr(x, "item") else x
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return -1
    if abs(x) >= 2**28:
        e = int(math.log2(abs(x)) + 0.5)
        return 1000000000 + e if x == 2**e else -2
    q = x * 4
    return int(q) if q == int(q) else -3


def number(v4, integer):
    if v4 >= 1000000000:
        v = 2 ** (v4 - 1000000000)
        return v if integer else float(v)
    return v4 // 4 if integer else v4 / 4


def describe(a):
    if not isinstance(a, (np.ndarray, np.generic)):
        return {"shape": [-1], "t": type(a).__name__, "v": []}
    a = np.asarray(a)
    return {"shape": list(a.shape), "t": NAME.get(a.dtype, str(a.dtype)), "v": [quarters(x) for x in a.ravel()]}


class World:
    def __init__(self, d, h):
        self.lue = self.np = self.ds = None

    def index(self, op):
        ix = []
        for c in op["ix"]:
            if c["k"] == "i":
                v = 2**70 if c["v"] == HUGE else c["v"]
                ix.append(v if c["as"] == "int" else getattr(np, c["as"])(v))
            else:
                ix.append(slice(*[None if c[f] == NONE else c[f] for f in "abc"]))
        return ix[0] if op["form"] == "one" else tuple(ix)

    def value(self, v):
        if v["k"] == "int":
            return number(v["v"], True)
        if v["k"] == "float":
            return number(v["v"], False)
        if v["k"] == "np":
            return DTYPE[v["t"]](number(v["v"], v["t"][0] != "f"))
        n = int(np.prod(v["shape"])) if v["shape"] else 1
        a = np.array([number(v["v"] + v["q"] * k, v["t"][0] != "f") for k in range(n)], dtype=DTYPE[v["t"]])
        a = a.reshape(v["shape"])
        if not v["shape"]:
            return a
        if v["lay"] == "F":
            return np.asfortranarray(a)
        if v["lay"] == "strided":
            b = np.full([2 * e + 1 for e in a.shape], 111, dtype=a.dtype)
            view = b[tuple(slice(1, 2 * e + 1, 2) for e in a.shape)]
            view[...] = a
            return view
        if v["lay"] == "reversed":
            return a[tuple(slice(None, None, -1) for e in a.shape)].copy()[tuple(slice(None, None, -1) for e in a.shape)]
        if v["lay"] == "swapped":
            return a.astype(a.dtype.newbyteorder())
        return a.tolist() if v["lay"] == "list" else a

    BAD = {"list": lambda: [0], "list2": lambda: [0, 0], "none": lambda: None, "ellipsis": lambda: Ellipsis,
           "true": lambda: True, "false": lambda: False, "npbool": lambda: np.bool_(True), "float": lambda: 1.0,
           "npfloat": lambda: np.float32(0.0), "text": lambda: "0", "bytes": lambda: b"0", "array": lambda: np.array([0, 0]),
           "mask": lambda: np.array([True, False]), "dict": lambda: {}, "range": lambda: range(1), "complex": lambda: 0j,
           "tuple": lambda: ((0,),)}

    def apply(self, a, op, ret):
        if a == "Make":
            self.kind = op["kind"]
            shape, dt = op["shape"], DTYPE[op["t"]]
            self.np = (np.arange(int(np.prod(shape))) + op["base"]).astype(dt).reshape(shape)
            self.ds = ldm.create_dataset("array.lue")
            ph = self.ds.add_phenomenon("thing")
            ps = ph.add_property_set("set")
            n = shape[0] if self.kind == "same" else 2
            ph.object_id.expand(n)[:] = np.arange(n, dtype=np.uint64) * 2 + 5
            if self.kind == "same":
                p = ps.add_property("array", dt, tuple(shape[1:])) if len(shape) > 1 else ps.add_property("array", dt)
                self.lue = p.value.expand(n)
            else:
                p = ps.add_property("array", dt, rank=len(shape))
                v = p.value.expand(np.array([5, 7], dtype=np.uint64), np.array([[2] * len(shape), shape], dtype=np.uint64))
                self.lue = v[7]
            self.lue[:] = self.np
        elif a == "Get":
            ret["np"] = {"res": "ok"}
            ix = self.index(op)
            try:
                ret["np"]["got"] = describe(self.np[ix])
            except Exception as e:
                ret["np"] = {"res": "err", "exc": type(e).__name__}
            ret["got"] = describe(self.lue[ix])
        elif a == "Set":
            ret["np"] = {"res": "ok"}
            ix, value = self.index(op), self.value(op["val"])
            old = self.np.copy()
            try:
                self.np[ix] = value
            except Exception as e:
                ret["np"] = {"res": "err", "exc": type(e).__name__}
                self.np[...] = old
            try:
                self.lue[ix] = value
            except Exception:
                self.np[...] = old
                raise
            if ret["np"]["res"] == "err":
                # accepted by LUE only
                self.np[...] = self.lue[:]
        elif a == "Bad":
            b = self.BAD[op["what"]]()
            ix = [0] * op["before"] + [b] + [slice(None)] * op["after"]
            ix = b if op["before"] + op["after"] == 0 and op["what"] != "tuple" else tuple(ix)
            if op["set"]:
                self.lue[ix] = 1
            else:
                self.lue[ix]
        elif a == "Info":
            ret["shape"] = list(self.lue.shape)
            ret["t"] = NAME.get(self.lue.dtype, str(self.lue.dtype))
        elif a == "Reopen":
            del self.lue
            self.ds = None
            self.ds = ldm.open_dataset("array.lue", "w")
            ps = self.ds.phenomena["thing"].property_sets["set"]
            p = ps.array
            self.lue = p.value if self.kind == "same" else p.value[7]
        else:
            raise HistoryError("unknown operation " + a)

    def observe(self):
        if self.lue is None:
            return {}
        try:
            return {"lue": describe(self.lue[:]), "np": describe(self.np)}
        except Exception as e:
            return {"lue": {"shape": [-1], "t": str(e)[:200], "v": []}, "np": describe(self.np)}


run_histories(World)
