"""Performs histories of LueViews through the Python API: rasters are created, and layers added to them, from Python. What
there is, is told by the C++ API."""
import ctypes, gc, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run_histories, HistoryError
import numpy as np
import lue.data_model as ldm

lib = ctypes.CDLL(os.environ["HL_VIEWS_PROJECT"])
for f in (lib.lue_views, lib.lue_ask, lib.lue_validate):
    f.restype = ctypes.c_char_p
lib.lue_coordinate.restype = ctypes.c_double
DT = {"i8": np.int8, "u8": np.uint8, "i16": np.int16, "u16": np.uint16, "i32": np.int32, "u32": np.uint32,
      "i64": np.int64, "u64": np.uint64, "f32": np.float32, "f64": np.float64, "c16": np.complex128, "b1": np.bool_,
      "f2": np.float16, "M8": "M8[s]"}
NAME = {np.dtype(v): k for k, v in DT.items()}


def ask(f, *args):
    r = json.loads(f(*[a.encode() for a in args]))
    if isinstance(r, dict) and "error" in r:
        raise RuntimeError(r["error"])
    return r


def dtype(dt, how):
    t = np.dtype(DT[dt])
    return t if how == 0 else t.type if how == 1 and dt != "M8" else t.str


class World:
    def __init__(self, d, h):
        self.path = os.path.join(d, "d.lue")
        self.rnd = random.Random(h["h"])
        self.forget = [0, 0.3, 0.8][h["h"] % 3]
        self.keep = [0, 0.5, 1][h["h"] // 3 % 3]
        self.ds = ldm.create_dataset(self.path)
        self.views, self.about, self.kept = [None] * 4, [[] for _ in range(4)], []

    def dataset(self):
        if self.ds is None:
            self.ds = ldm.open_dataset(self.path, "w")
        return self.ds

    def layer(self, ret, x, variable):
        """What Python tells of a layer"""
        shape = list(x.array_shape if variable else x.shape)
        if variable and (x.nr_arrays != 1 or list(x.shape) != [1] + shape):
            raise RuntimeError("several arrays")
        ret["shape"], ret["dt"] = [str(n) for n in shape], NAME[np.dtype(x.dtype)]

    def apply(self, a, o, ret):
        if a == "Create":
            box = [lib.lue_coordinate(c) for c in o["sbox"]]
            grid = tuple(int(n) for n in o["grid"])
            how = o["how"] == 1
            args = [self.dataset(), o["p"], o["s"]]
            if o["kind"] == "variable":
                unit = {"day": ldm.Unit.day, "month": ldm.Unit.month}[o["clock"]["unit"]]
                args += [ldm.Clock(unit, int(o["clock"]["n"])), int(o["nt"]), [int(t) for t in o["tbox"]]]
            args += [grid, tuple(box) if how else box]
            try:
                view = ldm.hl.create_raster_view(*args)
            finally:
                args.clear()
            self.views[o["v"]] = view
            self.about[o["v"]] = [o["kind"], o["p"], o["s"]]
        elif a == "Close":
            self.views[o["v"]], self.about[o["v"]] = None, []
            gc.collect()
        elif a == "AddLayer":
            layer = self.views[o["v"]].add_layer(o["name"], dtype(o["dt"], o["how"]))
            self.layer(ret, layer, self.about[o["v"]][0] == "variable")
            if self.rnd.random() < self.keep:
                self.kept.append((layer, dict(ret), self.about[o["v"]][0] == "variable"))
        elif a == "Layer":
            kind, p, s = self.about[o["v"]]
            ds = ldm.open_dataset(self.path, "r")
            props = ds.phenomena[p].property_sets[s].properties
            ids = ds.phenomena[p].object_id[:]
            value = props[o["name"]].value[int(ids[0])]
            self.layer(ret, value, kind == "variable")
        elif a in ("Contains", "Probe"):
            try:
                ret.update(ask(lib.lue_ask, self.path, json.dumps(o)))
            finally:
                if a == "Probe":    # closes and opens the dataset
                    self.reopen()
        elif a == "MakePhenomenon":
            ids = [int(i) for i in o["ids"]]
            ph = self.dataset().add_phenomenon(o["p"])
            if ids:
                ph.object_id.expand(len(ids))[:] = np.array(ids, dtype=np.uint64)
        elif a == "Reopen":
            self.reopen()
        elif a == "Check":
            ret.update(ask(lib.lue_validate, self.path))
            # and from Python
            try:
                ldm.assert_is_valid(self.path, False)
                ok = True
            except RuntimeError:
                ok = False
            if ok != ret["valid"]:
                ret["valid"] = "in C++ only" if ret["valid"] else "in Python only"
        else:
            raise HistoryError(a)
        if self.rnd.random() < self.forget:
            self.ds = None
            gc.collect()

    def reopen(self):
        self.views, self.about, self.ds = [None] * 4, [[] for _ in range(4)], None
        gc.collect()

    def observe(self):
        r = ask(lib.lue_views, self.path, json.dumps(self.about))
        # layers stay what they were
        for layer, was, variable in self.kept:
            now = {}
            self.layer(now, layer, variable)
            if now != was:
                r["ds"] = []
        # what a view is based on is kept open by it
        for v in self.views:
            if v is not None and not isinstance(v, ldm.hl.RasterViewBase):
                r["ds"] = []
        return r


run_histories(World)
