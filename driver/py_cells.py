"""Performs histories of LueCells through the Python API. What is in the layers is told by C++."""
import ctypes, gc, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run_histories, HistoryError
import numpy as np
import lue.data_model as ldm

lib = ctypes.CDLL(os.environ["HL_CELLS_PROJECT"])
lib.lue_cells.restype = ctypes.c_char_p
DT = {"i8": np.int8, "u8": np.uint8, "i16": np.int16, "u16": np.uint16, "i32": np.int32, "u32": np.uint32,
      "i64": np.int64, "u64": np.uint64, "f32": np.float32, "f64": np.float64}


class World:
    def __init__(self, d, h):
        self.path = os.path.join(d, "d.lue")
        self.rnd = random.Random(h["h"])
        self.keep = [0, 0.5, 1][h["h"] % 3]
        self.ds = ldm.create_dataset(self.path)
        self.views, self.rasters, self.kept = {}, {}, {}

    def scale(self, o):
        return float(self.rasters[o["r"]]["scales"][o["name"]])

    def layer(self, o):
        k = (o["r"], o["name"])
        if k in self.kept and self.rnd.random() < 0.7:
            return self.kept[k]
        ds = self.ds if self.rnd.random() < 0.5 else ldm.open_dataset(self.path, "w")
        if o["name"] not in ds.phenomena["area"].property_sets[o["r"]].properties:
            ds = ldm.open_dataset(self.path, "w")
        layer = ds.phenomena["area"].property_sets[o["r"]].properties[o["name"]].value[int(ds.area.object_id[0])]
        if self.rnd.random() < self.keep:
            self.kept[k] = layer
        return layer

    def key(self, o, layer, variable):
        """The index of a selection, and the shape of what it selects"""
        start, count, how = list(o["start"]), list(o["count"]), o["how"]
        extent = list(layer.shape)
        if variable:
            start, count = [0] + start, [1] + count
        key, shape = [], []
        for s, c, n in zip(start, count, extent):
            if how == 3 and c == 1:
                key.append(s - n if self.rnd.random() < 0.5 else s)
                continue
            shape.append(c)
            if how == 1:
                key.append(slice(s - n, s + c - n or None))
            elif s == 0 and c == n and self.rnd.random() < 0.5:
                key.append(slice(None))
            else:
                key.append(slice(s, s + c))
        if how == 2:
            key = [slice(k.start, k.stop, 1) for k in key]
        return tuple(key), shape

    def values(self, base, n, scale, dt):
        return np.array([(base + 7 * k) % 101 * scale for k in range(n)], dtype=np.float64).astype(DT[dt])

    def codes(self, a, scale):
        r = []
        for x in np.asarray(a).ravel():
            c = float(x) / scale
            r.append(int(c) if c == int(c) and abs(c) < 1000 else -3)
        return r

    def apply(self, a, o, ret):
        if a == "Reopen":
            self.ds, self.views = None, {}
            if self.rnd.random() < 0.5:
                self.kept = {}
            gc.collect()
            self.ds = ldm.open_dataset(self.path, "w")
            return
        r = o["r"]
        if a == "Create":
            grid = tuple(o["grid"])
            if o["kind"] == "constant":
                v = ldm.hl.create_raster_view(self.ds, "area", r, grid, [0, 0, 400, 600])
            else:
                v = ldm.hl.create_raster_view(self.ds, "area", r, ldm.Clock(ldm.Unit.day, 1), o["nt"], [0, 100], grid, [0, 0, 400, 600])
            self.views[r] = v
            self.rasters[r] = {"kind": o["kind"], "scales": {}}
            return
        variable = self.rasters[r]["kind"] == "variable"
        if a == "AddLayer":
            t = np.dtype(DT[o["dt"]])
            layer = self.views[r].add_layer(o["name"], t if o["how"] == 0 else t.type)
            self.rasters[r]["scales"][o["name"]] = float(o["scale"])
            if self.rnd.random() < self.keep:
                self.kept[(r, o["name"])] = layer
            return
        scale, layer, how = self.scale(o), self.layer(o), o["how"]
        if a in ("Write", "Read"):
            key, shape = self.key(o, layer, variable)
        else:
            key, shape = [(slice(None),) * len(layer.shape), (slice(0, None),) * len(layer.shape),
                          (slice(None, None, 1),) * len(layer.shape),
                          tuple(slice(-n, None) for n in layer.shape)][how], list(layer.shape)
        if a in ("Write", "WriteAll"):
            v = self.values(o["base"], int(np.prod(shape, dtype=int)), scale, o["mt"] if a == "Write" else np_name(layer.dtype)).reshape(shape)
            if how == 1:
                v = np.asfortranarray(v)
            elif how == 2:
                v = np.repeat(v, 2, axis=-1)[..., ::2] if v.ndim else v
            elif how == 3 and v.size == 1:
                v = v.ravel()[0]
            layer[key] = v
        elif a in ("Read", "ReadAll"):
            v = layer[key]
            if np.asarray(v).dtype != np.dtype(layer.dtype) or list(np.shape(v)) != shape:
                raise RuntimeError("type or shape: %s %s" % (np.asarray(v).dtype, np.shape(v)))
            ret["vals"] = self.codes(v, scale)
        else:
            raise HistoryError(a)

    def observe(self):
        r = json.loads(lib.lue_cells(self.path.encode(), json.dumps(self.rasters).encode()))
        return r if isinstance(r, list) else []


def np_name(t):
    return {np.dtype(v): k for k, v in DT.items()}[np.dtype(t)]


run_histories(World)
