"""Performs histories of LueData through the Python API. After each operation, the C++ API tells what is in the dataset
(chg, del), and everything that the Python API shows of it is compared with that (fresh: what differs), through objects
that have been around for long, and ones reached by way of objects that nobody refers to anymore."""
import ctypes, gc, json, os, random, sys
import numpy as np
import lue
import lue.data_model as ldm

NODATA, GARBAGE = -2, -1
lib = ctypes.CDLL(os.environ["DM_PROJECT"])
lib.lue_project.restype = lib.lue_pools.restype = ctypes.c_char_p
lib.lue_project.argtypes = [ctypes.c_char_p, ctypes.c_int]
lib.lue_wide.restype = lib.lue_addr.restype = ctypes.c_ulonglong
lib.lue_idx.restype = ctypes.c_ulonglong
lib.lue_idx.argtypes = [ctypes.c_int]
lib.lue_wide.argtypes = [ctypes.c_long]
lib.lue_wide_code.argtypes = [ctypes.c_ulonglong]
lib.lue_addr.argtypes = [ctypes.c_int64]
lib.lue_open_objects.restype = ctypes.c_long

DT = {"i8": np.int8, "u8": np.uint8, "i16": np.int16, "u16": np.uint16, "i32": np.int32, "u32": np.uint32,
      "i64": np.int64, "u64": np.uint64, "f32": np.float32, "f64": np.float64}
KINDS = {"ss": ldm.same_shape.Property, "sscs": ldm.same_shape.constant_shape.Property,
         "ssvs": ldm.same_shape.variable_shape.Property, "ds": ldm.different_shape.Property,
         "dscs": ldm.different_shape.constant_shape.Property, "dsvs": ldm.different_shape.variable_shape.Property}
PART = {"U": "universes", "P": "phenomena", "S": "property_sets", "C": "collection_property_sets", "p": "properties"}


def index(c):
    return lib.lue_idx(c)


class HistoryError(Exception):
    pass


class Wrong(Exception):
    """What the Python API shows is not what it should be"""


def cells(dt):
    b = np.arange(128)
    if dt == "f32":
        return (b * 1.25 - 60.0).astype(np.float32)
    if dt == "f64":
        return b * 1.1 - 60.3
    v = [int(x) - 64 if dt[0] == "i" and x != 127 else int(x) for x in b]
    scale = {1: 1, 2: 257, 4: 16843009, 8: 72340172838076673}[np.dtype(DT[dt]).itemsize]
    return np.array([x * scale for x in v], dtype=DT[dt])


CELLS = {dt: cells(dt) for dt in DT}


def encode(dt, tag, shape):
    n = int(np.prod(shape, dtype=np.int64))
    k = np.full(n, 127) if tag == NODATA else (tag + 13 * np.arange(n)) % 127
    return CELLS[dt][k].reshape(shape)


def encode_all(dt, tags, shape):
    r = np.empty((len(tags),) + tuple(shape), dtype=DT[dt])
    for i, t in enumerate(tags):
        r[i] = encode(dt, t, shape)
    return r


def decode(dt, a):
    a = np.asarray(a)
    if a.size == 0 or a.dtype != np.dtype(DT[dt]):
        return GARBAGE
    f = a.ravel()
    w = np.nonzero(CELLS[dt] == f[0])[0]
    if len(w) == 0:
        return GARBAGE
    tag = int(w[0])
    if tag == 127:
        return NODATA if (f == CELLS[dt][127]).all() else GARBAGE
    return tag if (f == encode(dt, tag, f.shape)).all() else GARBAGE


def expect(what, got, want):
    if got != want:
        raise Wrong("%s: %.200r, not %.200r" % (what, got, want))


def rows(v):
    """All values, read as a whole, and one by one"""
    a = v[:]
    for i in range(min(len(a), 3)):
        if not np.array_equal(np.asarray(v[i]), a[i]) or not np.array_equal(np.asarray(v[i - len(a)]), a[i]):
            raise Wrong("row %d differs when read on its own" % i)
    return a


class World:
    def __init__(self, d, h):
        self.path = os.path.join(d, "d.lue")
        self.v = h["v"]
        p = json.loads(lib.lue_pools(self.v))
        self.names, self.texts, self.ids, self.ticks, self.periods = (p[k] for k in ["names", "texts", "ids", "ticks", "periods"])
        self.rnd = random.Random(1000 * h["h"] + self.v)
        self.keep = [0.0, 1.0, 0.3, 0.7][h["h"] % 4]     # how often objects are kept
        self.attr = [0.5, 0.0, 0.9][h["h"] % 3]          # how often they are obtained as attributes
        self.kept, self.locs, self.second, self.result = {}, {}, {}, None
        self.ds, self.last, self.rw, self.bytes = None, {}, True, b""

    # ------------------------------------------------------------------------------------------------ reaching objects
    def name(self, c):
        return self.names[c - 1]

    def code(self, s):
        return self.names.index(s) + 1 if s in self.names else -1

    def chance(self, p):
        return self.rnd.random() < p

    def step(self, obj, part, name):
        if self.chance(self.attr) and not hasattr(type(obj), name) \
                and not (part == "P" and isinstance(obj, ldm.Dataset) and name in obj.universes) \
                and not (part == "C" and name in obj.property_sets):
            return getattr(obj, name)
        return getattr(obj, PART[part])[name]

    def reach(self, key, ds=None):
        """The object by that key, by way of others that aren't referred to from anywhere, unless they are kept"""
        if ds is None and key in self.kept and not self.chance(0.2):
            return self.kept[key]
        parts = [] if key == "D" else key.split(".")
        obj = ds or self.ds
        for i, p in enumerate(parts):
            k = ".".join(parts[:i + 1])
            if ds is None and k in self.kept and self.chance(0.5):
                obj = self.kept[k]
            else:
                obj = self.step(obj, p[0], self.name(int(p[1:])))
        if ds is None and parts:
            self.maybe_keep(key, obj)
        return obj

    def maybe_keep(self, key, obj):
        if key not in self.kept and self.chance(self.keep):
            self.kept[key] = obj

    def added(self, key, obj, name):
        if obj.id.name != name:
            raise HistoryError("add returned another object")
        self.maybe_keep(key, obj)
        if self.chance(0.35):
            self.result = (key, obj)

    # ------------------------------------------------------------------------------------------------ operations
    def dtype(self, dt):
        return self.rnd.choice([DT[dt], np.dtype(DT[dt]), np.dtype(DT[dt]).name])

    def array(self, a):
        """The same values, laid out in some way"""
        c = self.rnd.randrange(6)
        if c == 0 and a.ndim:
            b = np.empty((a.shape[0] * 2,) + a.shape[1:], a.dtype)
            b[:] = 99
            b[::2] = a
            return b[::2]
        if c == 1 and a.ndim > 1:
            return np.asfortranarray(a)
        if c == 2 and a.ndim > 1:
            return np.ascontiguousarray(a.T).T
        if c == 3 and a.ndim == 1 and a.size:
            return a[::-1].copy()[::-1]
        return a

    def append(self, get, a, how):
        """Makes room for values, and writes them. get: function that returns the array"""
        v = get()
        n0, n = v.nr_arrays, len(a)
        r = v.expand(n)
        expect("room made", (r.nr_arrays, v.nr_arrays), (n0 + n, n0 + n))
        if n == 0:
            return
        if self.chance(0.5):
            v = r if self.chance(0.5) else get()
        del r
        if how == "each":
            for i in reversed(range(n)):
                v[n0 + i if self.chance(0.5) else i - n] = a[i]
        elif how == "all":
            v[:] = np.concatenate([v[:][:n0], a]) if n0 else self.array(a)
        elif self.chance(0.5):
            v[n0:] = self.array(a)
        else:
            v[-n:] = self.array(a)

    def put(self, v, at, a):
        if at + len(a) > v.nr_arrays:
            raise HistoryError("index out of range in history")
        if len(a) == 1 and self.chance(0.7):
            v[at] = a[0]
        else:
            v[at:at + len(a)] = self.array(a)

    def u64(self, xs, pool):
        return np.array([pool[x] if pool else lib.lue_wide(x) for x in xs], dtype=np.uint64)

    def apply(self, a, o, ret):
        getattr(self, "op_" + a, self.op_value)(o, ret)

    def op_Create(self, o, ret):
        if self.chance(0.5):
            self.ds = ldm.create_dataset(self.path, self.texts[o["desc"]])
        else:
            self.ds = ldm.create_dataset(self.path, description=self.texts[o["desc"]])

    def op_AddU(self, o, ret):
        name = self.name(o["nm"])
        r = self.ds.add_universe(name) if self.chance(0.5) else self.ds.universes.add(name)
        self.added("U%d" % o["nm"], r, name)

    def op_AddP(self, o, ret):
        name, desc = self.name(o["nm"]), self.texts[o["desc"]]
        up = self.reach(o["up"])
        r = up.add_phenomenon(name, desc) if self.chance(0.5) else up.add_phenomenon(name=name, description=desc)
        self.added(("" if o["up"] == "D" else o["up"] + ".") + "P%d" % o["nm"], r, name)

    def clock(self, c):
        kind = ldm.Epoch.Kind.common_era if c["ek"] == "ce" else ldm.Epoch.Kind.formation_of_earth
        if c["org"] == -9:
            e = ldm.Epoch(kind)
        elif c["cal"] == 1:
            e = ldm.Epoch(kind, self.texts[c["org"]], ldm.Calendar.gregorian)
        else:
            e = ldm.Epoch(kind, self.texts[c["org"]])
        return ldm.Clock(e, ldm.Unit(c["unit"]), self.periods[c["n"]])

    def op_AddS(self, o, ret):
        ph, name = self.reach(o["up"]), self.name(o["nm"])
        args = {}
        if o["td"] == "own":
            args["time_configuration"] = ldm.TimeConfiguration(getattr(ldm.TimeDomainItemType, o["type"]))
            args["clock"] = self.clock(o["clock"])
        elif o["td"] == "share":
            src = self.reach(o["tdsrc"])
            if not src.has_time_domain:
                raise HistoryError("no time domain")
            args["time_domain"] = src.time_domain
        if o["ot"] == "share":
            args["object_tracker"] = self.reach(o["otsrc"]).object_tracker
        if "none" not in o["sd"]:
            s = o["sd"]
            args["space_configuration"] = ldm.SpaceConfiguration(
                ldm.Mobility.mobile if s["mob"] else ldm.Mobility.stationary,
                ldm.SpaceDomainItemType.box if s["box"] else ldm.SpaceDomainItemType.point)
            args["space_coordinate_dtype"] = self.dtype(s["dt"])
            args["rank"] = s["rank"]
        add = ph.add_collection_property_set if o["coll"] else ph.add_property_set
        r = add(name, *args.values()) if self.chance(0.5) else add(name=name, **args)
        self.added("%s.%s%d" % (o["up"], "C" if o["coll"] else "S", o["nm"]), r, name)

    def op_Addp(self, o, ret):
        ps, name, desc = self.reach(o["up"]), self.name(o["nm"]), self.texts[o["desc"]]
        kind, dt, shape = o["kind"], self.dtype(o["dt"]), tuple(o["shape"])
        if kind == "ss":
            if not shape and self.chance(0.5):
                args = {}
            elif self.chance(0.5):
                args = dict(shape=shape)
            else:
                args = dict(shape=shape, value_variability=ldm.ValueVariability.constant)
        elif kind == "sscs":
            args = dict(shape=shape, value_variability=ldm.ValueVariability.variable)
        elif kind == "ds":
            args = dict(rank=len(shape))
        else:
            args = dict(rank=len(shape),
                        shape_per_object=ldm.ShapePerObject.same if kind == "ssvs" else ldm.ShapePerObject.different,
                        shape_variability=ldm.ShapeVariability.constant if kind == "dscs" else ldm.ShapeVariability.variable)
        if self.chance(0.5):
            r = ps.add_property(name, dt, *args.values(), description=desc)
        else:
            r = ps.add_property(name=name, dtype=dt, description=desc, **args)
        if type(r) is not KINDS[kind]:
            raise HistoryError("add returned another kind of property")
        self.added("%s.p%d" % (o["up"], o["nm"]), r, name)

    def op_Ids(self, o, ret):
        self.append(lambda: self.reach(o["key"]).object_id, self.u64(o["ids"], self.ids), o["how"])

    def op_IdsPut(self, o, ret):
        self.put(self.reach(o["key"]).object_id, o["idx"], self.u64([o["id"]], self.ids))

    def op_Ot(self, o, ret):
        f = {"asi": "active_set_index", "aoid": "active_object_id", "aoi": "active_object_index"}[o["f"]]
        get = lambda: getattr(self.reach(o["key"]).object_tracker, f)
        x = self.u64(o["vals"], self.ids if o["f"] == "aoid" else None)
        if o["a"] == "Ot":
            self.append(get, x, o["how"])
        else:
            self.put(get(), o["idx"], x)

    op_OtPut = op_Ot

    def op_Td(self, o, ret):
        def get():
            ps = self.reach(o["key"])
            if not ps.has_time_domain:
                raise HistoryError("no time domain")
            return ps.time_domain.value.count if o["f"] == "cnt" else ps.time_domain.value
        x = self.u64(o["vals"], None if o["f"] == "cnt" else self.ticks)
        shape = get().array_shape
        if list(shape):
            x = x.reshape((-1,) + tuple(shape))
        if o["a"] == "Td":
            self.append(get, x, o["how"])
        else:
            self.put(get(), o["idx"], x)

    op_TdPut = op_Td

    def op_Sd(self, o, ret):
        def get():
            ps = self.reach(o["key"])
            if not ps.has_space_domain:
                raise HistoryError("no space domain")
            return ps.space_domain.value
        x = encode_all(o["dt"], o["tags"], get().array_shape)
        if o["a"] == "Sd":
            self.append(get, x, o["how"])
        else:
            self.put(get(), o["idx"], x)

    op_SdPut = op_Sd

    def op_Pres(self, o, ret):
        self.reach(o["key"]).space_domain.set_presence_discretization(self.reach(o["to"]))

    def op_TDisc(self, o, ret):
        p, q = self.reach(o["key"]), self.reach(o["to"])
        if o["a"] == "TDisc":
            p.set_time_discretization(ldm.TimeDiscretization.regular_grid, q)
        elif self.chance(0.5):
            p.set_space_discretization(ldm.SpaceDiscretization.regular_grid, q)
        else:
            p.set_space_discretization(type=ldm.SpaceDiscretization.regular_grid, property=q)

    op_SDisc = op_TDisc

    def value(self, key):
        """The value of a property, maybe by way of another property that is discretized by it"""
        via = sorted(k for k, e in self.last.items() if e["k"] == "prop" and e["sdisc"] == key)
        if via and key not in self.second and self.chance(0.4):
            self.second[key] = self.reach(self.rnd.choice(via)).space_discretization_property()
        if key in self.second and self.chance(0.6):
            return self.second[key].value
        return self.reach(key).value

    def location(self, v, key, idx):
        """The values at a location in time, maybe an object that was obtained before"""
        if (key, idx) not in self.locs and self.chance(0.4):
            self.locs[key, idx] = v[index(idx)]
        return self.locs[key, idx] if (key, idx) in self.locs and self.chance(0.6) else v[index(idx)]

    def op_value(self, o, ret):
        a, key = o["a"], o["key"]
        get = lambda: self.value(key)
        v = get()
        dt = [k for k in DT if np.dtype(DT[k]) == v.dtype][0]
        if a == "VExpand":
            return self.append(get, encode_all(dt, o["tags"], v.array_shape), o["how"])
        if a == "VWrite":
            return self.put(v, o["idx"], encode_all(dt, o["tags"], v.array_shape))
        if a == "LExpand":
            w = v.expand(index(o["idx"]), len(o["tags"]), tuple(o["shape"]))
            if o["tags"]:
                self.put(w, 0, encode_all(dt, o["tags"], o["shape"]))
            if self.chance(self.keep):
                self.locs[key, o["idx"]] = w
        elif a == "OExpand":
            self.expand_objects(v, dt, o)
        elif a == "OWrite":
            self.write_object(v, dt, o["id"], o["tag"])
        elif a == "CExpand":
            id_ = self.ids[o["ids"][0]]
            w = v.expand(id_, tuple(o["shapes"][0]), len(o["tags"][0]))
            w = v[id_] if self.chance(0.5) else w
            if o["tags"][0]:
                self.put(w, 0, encode_all(dt, o["tags"][0], o["shapes"][0]))
        elif a in ("CGrow", "CWrite"):
            id_ = self.ids[o["id"]]
            x = encode_all(dt, o["tags"], v[id_].array_shape)
            if a == "CGrow":
                self.append(lambda: v[id_], x, o["how"])
            else:
                self.put(v[id_], o["at"], x)
        elif a == "MExpand":
            w = v.expand(index(o["idx"]), self.ids[o["ids"][0]], tuple(o["shapes"][0]))
            self.write_object(w if self.chance(0.5) else v[index(o["idx"])], dt, o["ids"][0], o["tags"][0])
            if self.chance(self.keep):
                self.locs[key, o["idx"]] = w
        elif a == "MGrow":
            self.expand_objects(self.location(v, key, o["idx"]), dt, o)
        elif a == "MWrite":
            self.write_object(self.location(v, key, o["idx"]), dt, o["id"], o["tag"])
        else:
            raise HistoryError("unknown operation")

    def write_object(self, v, dt, id_, tag):
        w = v[self.ids[id_]]
        w[:] = self.array(encode(dt, tag, tuple(w.shape)))

    def expand_objects(self, v, dt, o):
        ids = self.u64(o["ids"], self.ids)
        shapes = np.array(o["shapes"], dtype=np.uint64).reshape(len(ids), -1)
        if self.chance(0.3):
            shapes = shapes.astype(self.rnd.choice([np.int64, np.uint32, np.int16 if shapes.max() < 1000 else np.int32]))
        r = v.expand(self.array(ids), self.array(shapes))
        expect("room made", len(r), len(v))
        if self.chance(0.5):
            v = r
        for i, t in zip(o["ids"], o["tags"]):
            self.write_object(v, dt, i, t)

    def op_Validate(self, o, ret):
        issues = ldm.validate(self.path) if o["how"] == "path" else ldm.validate(name=self.path)
        bad, errors, warnings = issues.errors_found, issues.errors, issues.warnings
        strict = bad or issues.warnings_found
        messages = [e.message for e in errors] + [w.message for w in warnings]
        coherent = bad == (len(errors) > 0) and issues.warnings_found == (len(warnings) > 0)
        del issues
        gc.collect()
        coherent = coherent and messages == [e.message for e in errors] + [w.message for w in warnings]
        thrown = False
        file = ldm.hdf5.open_file(self.path) if o["how"] == "file" else None
        for fail_on_warning in (None, True, False):
            try:
                if o["how"] == "path":
                    ldm.assert_is_valid(self.path, **({} if fail_on_warning is None else {"fail_on_warning": fail_on_warning}))
                elif o["how"] == "file":
                    ldm.assert_is_valid(file, *([] if fail_on_warning is None else [fail_on_warning]))
                else:
                    ldm.assert_is_valid(self.ds, *([] if fail_on_warning is None else [fail_on_warning]))
                thrown = False
            except RuntimeError as e:
                thrown = True
                coherent = coherent and all(m in str(e) for m in messages)
            coherent = coherent and thrown == (bad if fail_on_warning is False else strict)
        ret.update(bad=bad, thrown=thrown, coherent=coherent)

    def op_Reopen(self, o, ret):
        # an object that is still referred to, while nothing else is
        leaf = None
        keys = [k for k in self.last if k != "D"]
        if keys:
            key = self.rnd.choice(sorted(keys))
            if self.result and self.result[0] in keys and self.chance(0.6):
                # what adding it returned
                key, obj = self.result
                leaf = self.leaf(obj) if self.chance(0.5) else obj
                obj = None
            else:
                leaf = self.leaf(self.reach(key))
            before = self.signature(leaf)
        self.result = None
        self.kept.clear()
        self.locs.clear()
        self.second.clear()
        self.ds = None
        gc.collect()
        if leaf is not None:
            junk = [bytes(range(256)) * 4 for _ in range(200)]
            now = self.signature(leaf)
            if now != before:
                ret["leaf"] = [key, type(leaf).__name__, str(before)[:200], str(now)[:200]]
        leaf = None
        gc.collect()
        ret["leak"] = lib.lue_open_objects()
        ret["rochg"] = not self.rw and open(self.path, "rb").read() != self.bytes
        self.rw = o["mode"] == "rw"
        if not self.rw:
            self.bytes = open(self.path, "rb").read()
        self.ds = ldm.open_dataset(self.path, "w") if self.rw else \
            self.rnd.choice([lambda: ldm.open_dataset(self.path), lambda: ldm.open_dataset(name=self.path, mode="r")])()

    # ------------------------------------------------------------------------------------------------ observation
    def leaf(self, obj):
        """Something that is part of an object, or the object itself"""
        opts = [lambda: obj, lambda: obj.id]
        if isinstance(obj, ldm.Universe):
            opts += [lambda: obj.phenomena]
        elif isinstance(obj, ldm.Phenomenon):
            opts += [lambda: obj.object_id, lambda: obj.property_sets, lambda: obj.collection_property_sets]
        elif isinstance(obj, ldm.PropertySet):
            opts += [lambda: obj.properties, lambda: obj.object_tracker, lambda: obj.object_tracker.active_object_id]
            if obj.has_time_domain:
                opts += [lambda: obj.time_domain, lambda: obj.time_domain.value, lambda: obj.time_domain.clock]
                if obj.time_domain.configuration.item_type == ldm.TimeDomainItemType.cell:
                    opts += [lambda: obj.time_domain.value.count] * 2
                opts += [lambda: obj.time_domain.clock.epoch, lambda: obj.time_domain.configuration]
            if obj.has_space_domain:
                opts += [lambda: obj.space_domain, lambda: obj.space_domain.value, lambda: obj.space_domain.configuration]
                if obj.space_domain.presence_is_discretized:
                    opts += [lambda: obj.space_domain.discretized_presence_property] * 2
        elif isinstance(obj, ldm.PropertyGroup):
            opts += [lambda: obj.value] * 2
            if obj.space_is_discretized:
                opts += [lambda: obj.space_discretization_property(), lambda: obj.space_discretization_property().value]
        return self.rnd.choice(opts)()

    def signature(self, obj):
        try:
            r = [type(obj).__name__, str(obj) if type(obj).__str__ is not object.__str__ else ""]
            if hasattr(type(obj), "pathname"):
                r += [obj.pathname] + ([obj.name] if hasattr(type(obj), "name") else [])
            if isinstance(obj, (ldm.Clock, ldm.Epoch, ldm.TimeConfiguration, ldm.SpaceConfiguration)):
                return r
            if isinstance(obj, ldm.Array):
                r += [obj[:].tolist(), str(obj.dtype)]
            elif hasattr(type(obj), "id") and not hasattr(type(obj), "pathname"):
                r += [obj.id.pathname, lib.lue_addr(obj.id.id)]
            if hasattr(type(obj), "names"):
                r += [sorted(obj.names)]
            return r
        except Exception as e:
            return ["failed", str(e)]

    def codes(self, coll, names, what):
        expect(what, sorted(self.code(n) for n in coll.names), names)
        if hasattr(type(coll), "__len__"):
            expect(what + ", number", len(coll), len(names))
        for i in range(1, len(self.names) + 1):
            expect(what + ", contains", self.name(i) in coll, i in names)
        for c in names:
            expect(what + ", name", coll[self.name(c)].id.name, self.name(c))

    def addr(self, obj, table):
        return self.proj.get(table, {}).get(str(lib.lue_addr(obj.id.id)), "?")

    def numbers(self, v, pool):
        r = [pool.index(int(x)) if pool else lib.lue_wide_code(int(x)) for x in rows(v).ravel()]
        expect("dtype", v.dtype, np.dtype(np.uint64))
        return r

    def check(self, key, e, x, deep=True):
        """Whether everything Python shows of an object is what is expected"""
        getattr(self, "check_" + e["k"])(key, e, x)
        str(x), repr(x)

    def check_ds(self, key, e, x):
        self.codes(x.universes, e["unis"], "universes")
        self.codes(x.phenomena, e["phens"], "phenomena")
        expect("path name", x.pathname, self.path)
        expect("version", len(x.lue_version) > 0, True)
        expect("mode", repr(x), "Dataset(name='%s', flags='%s')" % (self.path, "w" if self.rw else "r"))

    def check_uni(self, key, e, x):
        self.codes(x.phenomena, e["phens"], "phenomena")

    def check_phen(self, key, e, x):
        expect("description", x.description, self.texts[e["desc"]] if e["desc"] >= 0 else None)
        expect("object IDs", self.numbers(x.object_id, self.ids), e["ids"])
        expect("number of object IDs", (len(x.object_id), x.object_id.nr_arrays), (len(e["ids"]),) * 2)
        self.codes(x.property_sets, e["psets"], "property-sets")
        self.codes(x.collection_property_sets, e["cpsets"], "collection property-sets")

    def check_pset(self, key, e, x):
        t = x.object_tracker
        expect("tracker", self.addr(t, "ots"), e["oto"])
        expect("asi", self.numbers(t.active_set_index, None), e["ot"]["asi"])
        expect("aoid", self.numbers(t.active_object_id, self.ids), e["ot"]["aoid"])
        expect("aoi", self.numbers(t.active_object_index, None), e["ot"]["aoi"])
        expect("numbers", [t.active_set_index.nr_indices, t.active_object_id.nr_ids, t.active_object_index.nr_indices],
               [len(e["ot"][f]) for f in ["asi", "aoid", "aoi"]])
        expect("has time domain", x.has_time_domain, e["hastd"])
        expect("has space domain", x.has_space_domain, e["hassd"])
        if e["hastd"]:
            td = x.time_domain
            expect("time domain", self.addr(td, "tds"), e["tdo"])
            self.check_time(td, e["td"])
        else:
            self.raises(lambda: x.time_domain, "a time domain")
        if e["hassd"]:
            sd, s = x.space_domain, e["sd"]
            expect("mobile", sd.configuration.mobility == ldm.Mobility.mobile, s["mob"])
            expect("box", sd.configuration.item_type == ldm.SpaceDomainItemType.box, s["box"])
            cls = ("MobileSpace" if s["mob"] else "StationarySpace") + ("Box" if s["box"] else "Point")
            expect("class", type(sd.value).__name__, cls)
            self.check_arrays(sd.value, s["v"])
            expect("presence", sd.presence_is_discretized, s["pres"] != "")
            if s["pres"]:
                expect("presence", self.addr(sd.discretized_presence_property, "addr"), s["pres"])
        else:
            self.raises(lambda: x.space_domain, "a space domain")
        self.codes(x.properties, e["names"], "properties")

    def raises(self, f, what):
        try:
            f()
        except Exception:
            return
        raise Wrong("%s where there is none" % what)

    def check_time(self, td, e):
        c, k = td.clock, e["clock"]
        ep = c.epoch
        expect("epoch", "ce" if ep.kind == ldm.Epoch.Kind.common_era else "fe", k["ek"])
        expect("origin", ep.origin, None if k["org"] == -9 else self.texts[k["org"]])
        expect("calendar", ep.calendar, ldm.Calendar.gregorian if k["cal"] else None)
        expect("unit", int(c.unit), k["unit"])
        expect("number of units", c.nr_units, self.periods[k["n"]])
        expect("type", td.configuration.item_type, getattr(ldm.TimeDomainItemType, e["type"]))
        v = td.value
        expect("class", type(v).__name__, "Time" + e["type"].capitalize())
        expect("time", self.numbers(v, self.ticks), e["items"])
        if e["type"] != "point":
            expect("number of boxes", v.nr_boxes, len(e["items"]) // 2)
        if e["type"] == "cell":
            expect("counts", self.numbers(v.count, None), e["cnt"])
            expect("number of counts", v.nr_counts, len(e["cnt"]))

    def check_arrays(self, v, e, dt=None):
        dt = dt or e["dt"]
        expect("dtype", v.dtype, np.dtype(DT[dt]))
        expect("shape of arrays", list(v.array_shape), e["shape"])
        expect("number of arrays", v.nr_arrays, len(e["arr"]))
        a = rows(v)
        expect("shape", list(a.shape), [len(e["arr"])] + e["shape"])
        expect("arrays", [decode(dt, x) for x in a], e["arr"])

    def check_prop(self, key, e, x):
        expect("class", type(x), KINDS[e["kind"]])
        expect("name", self.code(x.id.name), int(key[key.rindex("p") + 1:]))
        expect("description", x.description, self.texts[e["desc"]] if e["desc"] >= 0 else None)
        expect("time discretized", x.time_is_discretized, e["tdisc"] != "")
        expect("space discretized", x.space_is_discretized, e["sdisc"] != "")
        if e["sdisc"]:
            q = x.space_discretization_property()
            expect("discretization property", self.addr(q, "addr"), e["sdisc"])
            expect("its class", type(q), KINDS[self.proj["items"][e["sdisc"]]["kind"]])
            if e["sdisc"] != key:
                self.check_value(q.value, self.proj["items"][e["sdisc"]])
        self.check_value(x.value, e)
        for (k, idx), w in self.locs.items():
            if k == key:
                loc = [l for l in e["val"]["loc"] if l[0] == idx][0]
                if e["kind"] == "ssvs":
                    self.check_arrays(w, dict(shape=loc[1], arr=loc[2]), e["val"]["dt"])
                else:
                    expect("number of objects", len(w), loc[1])
                    self.check_objects(w, loc[2], e["val"]["dt"])
        if key in self.second:
            self.check_value(self.second[key].value, e)

    def check_value(self, v, e):
        k, val = e["kind"], e["val"]
        dt = val["dt"]
        expect("dtype", v.dtype, np.dtype(DT[dt]))
        if k in ("ss", "sscs"):
            self.check_arrays(v, val)
        elif k == "ds":
            expect("number of objects", len(v), val["n"])
            self.check_objects(v, val["obj"], dt)
        elif k == "dscs":
            expect("number of objects", len(v), val["n"])
            for id_, shape, arr in val["obj"]:
                self.check_arrays(v[self.ids[id_]], dict(shape=shape, arr=arr), dt)
        elif k == "dsvs":
            for idx, n, obj, extra in val["loc"]:
                expect("number of objects", len(v[index(idx)]), n)
                self.check_objects(v[index(idx)], obj, dt)

    def check_objects(self, v, objs, dt):
        for id_, shape, tag in objs:
            w = v[self.ids[id_]]
            a = w[:]
            expect("shape", list(a.shape), shape)
            expect("tag", decode(dt, a), tag)
            expect("dtype", w.dtype, np.dtype(DT[dt]))
        have = {o[0] for o in objs}
        for id_ in range(16):
            if id_ not in have:
                self.raises(lambda: v[self.ids[id_]], "an object array")
                break

    def look(self, ev, key, obj):
        try:
            self.check(key, self.proj["items"][key], obj())
        except Exception as e:
            ev["fresh"].append(key)
            ev.setdefault("freshval", {})[key] = "%s: %s" % (type(e).__name__, str(e)[:400])

    def observe(self, ev):
        self.proj = json.loads(lib.lue_project(self.path.encode(), self.v))
        ev.update(chg={}, fresh=[])
        ev["del"] = []
        if "error" in self.proj:
            ev["res"] += ", observation failed: " + self.proj["error"]
            return
        now = self.proj["items"]
        for key in now:
            self.look(ev, key, lambda: self.reach(key))
        # by way of a dataset that nobody refers to, and without anything that is kept
        for key in self.rnd.sample(sorted(now), min(2, len(now))):
            def lost():
                obj = self.reach(key, ldm.open_dataset(self.path))
                return obj
            self.look(ev, key, lost) if key != "D" else None
            try:
                leaf = self.leaf(lost())
                gc.collect()
                a = self.signature(leaf)
                if a[0] == "failed":
                    raise Wrong("%s: %s" % (type(leaf).__name__, a[1]))
            except Exception as e:
                ev["fresh"].append(key)
                ev.setdefault("freshval", {})[key] = "leaf: " + str(e)[:300]
            leaf = None
        for k, v in now.items():
            if self.last.get(k) != v:
                ev["chg"][k] = v
        ev["del"] = [k for k in self.last if k not in now]
        self.last = now


def main():
    fin, fout, top = sys.argv[1:4]
    with open(fout, "w") as out:
        for line in open(fin):
            if not line.strip():
                continue
            h = json.loads(line)
            w = World(top, h)
            for i, op in enumerate(h["ops"]):
                ev = {"h": h["h"], "i": i + 1, "op": op}
                ret = {}
                try:
                    w.apply(op["a"], op, ret)
                    ev["res"] = "ok"
                except HistoryError as e:
                    ev["res"] = "logic: " + str(e)
                except Wrong as e:
                    ev["res"] = "wrong: " + str(e)
                except Exception as e:
                    ev["res"] = "err"
                    ev["msg"] = (type(e).__name__ + ": " + str(e))[:300]
                if ret:
                    ev["ret"] = ret
                w.observe(ev)
                out.write(json.dumps(ev) + "\n")
                out.flush()
            del w
            gc.collect()
            if os.path.exists(os.path.join(top, "d.lue")):
                os.remove(os.path.join(top, "d.lue"))


main()
