"""Performs histories of LueFiles through the Python API: files and datasets are created, opened, flushed and removed from
Python. What is in them, is told by HDF5 itself."""
import ctypes, gc, json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run_histories, HistoryError
import lue.data_model as ldm
from lue.data_model import hdf5

lib = ctypes.CDLL(os.environ["H5_FILES_PROJECT"])
lib.lue_world.restype = lib.lue_observe.restype = ctypes.c_char_p
lib.lue_add_group.argtypes = [ctypes.c_longlong, ctypes.c_char_p]
lib.lue_mark.argtypes = [ctypes.c_longlong, ctypes.c_int]


def ask(f, *args):
    r = json.loads(f(*[a.encode() for a in args]))
    if "error" in r:
        raise RuntimeError(r["error"])
    return r


class World:
    def __init__(self, d, h):
        if h["h"] % 3 == 1:
            # far down, with path names of hundreds of bytes
            d = os.path.join(d, "d" * 150, "e" * (120 + h["h"] % 100))
            os.makedirs(d)
            os.chdir(d)
        self.dir = d
        self.rnd = random.Random(h["h"])
        self.slot = [None] * 4
        ask(lib.lue_world, d)

    def spell(self, path, how):
        return path if how == 0 else "./" + path if how == 1 else self.dir + "/" + path

    def apply(self, a, o, ret):
        name = self.spell(o["path"], o["how"]) if "path" in o else ""
        lue = o.get("lvl") == "dm"
        named = self.rnd.random() < 0.5  # arguments by name
        if a in ("Create", "Open"):
            if a == "Create" and lue:
                if o["desc"]:
                    f = (ldm.create_dataset(description="about", name=name) if named
                         else ldm.create_dataset(name, "about"))
                else:
                    f = ldm.create_dataset(name)
            elif a == "Create":
                f = hdf5.create_file(name=name) if named else hdf5.create_file(name)
            else:
                open_ = ldm.open_dataset if lue else hdf5.open_file
                if not o["rw"] and o["how"] == 1:
                    f = open_(name)
                else:
                    mode = "w" if o["rw"] else "r"
                    f = open_(mode=mode, name=name) if named else open_(name, mode)
            if self.slot[o["to"]] is not None:
                raise HistoryError("slot in use")
            self.slot[o["to"]] = f
        elif a == "OpenBad":
            (ldm.open_dataset if lue else hdf5.open_file)(name, o["mode"])
        elif a == "Add":
            f = self.slot[o["from"]]
            if o["uni"]:
                u = f.add_universe(o["name"])
                if u.id.name != o["name"] or o["name"] not in f.universes.names:
                    raise RuntimeError("added " + u.id.name)
            elif not lib.lue_add_group(f.id.id, o["name"].encode()):
                raise RuntimeError("cannot add group")
        elif a == "Mark":
            if not lib.lue_mark(self.slot[o["from"]].id.id, o["mark"]):
                raise RuntimeError("cannot mark")
        elif a == "Flush":
            self.slot[o["from"]].flush()
        elif a == "Close":
            self.slot[o["from"]] = None
            gc.collect()
        elif a == "Remove":
            hdf5.remove_file(name)
        elif a == "Exists":
            ret["exists"] = hdf5.file_exists(name)
        elif a == "Valid":
            try:
                issues = ldm.validate(name)
                text = "no" if issues.errors_found else "yes"
                if issues.errors_found != (len(issues.errors) > 0) or issues.warnings_found != (len(issues.warnings) > 0):
                    text += ", incoherent"
            except RuntimeError:
                text = "nothing"
            try:
                ldm.assert_is_valid(name, fail_on_warning=False)
                raised = False
            except RuntimeError:
                raised = True
            ret["valid"] = text if raised == (text != "yes") else text + ", but not always"
        elif a == "Text":
            with open(name, "wb") as f:
                f.write(b"not a dataset\n")
        elif a == "Cut":
            with open(name, "rb") as f:
                b = f.read(20)
            with open(name, "wb") as f:
                f.write(b)
        else:
            raise HistoryError("unknown operation " + a)

    def observe(self):
        inuse = {str(i): {"id": f.id.id} for i, f in enumerate(self.slot) if f is not None}
        r = ask(lib.lue_observe, json.dumps(inuse))
        for i, f in enumerate(self.slot):
            if f is None:
                continue
            o = r["open"][str(i)]
            try:
                p = f.pathname
                o["how"] = 2 if p.startswith(self.dir) else 1 if p.startswith("./") else 0
                o["path"] = os.path.relpath(p, self.dir) if o["how"] == 2 else os.path.normpath(p)
                # what Python tells of it
                if not f.hdf5_version:
                    o["failed"] = "no version"
                if isinstance(f, ldm.Dataset):
                    if not f.lue_version:
                        o["failed"] = "no LUE version"
                    t = re.fullmatch(r"Dataset\(name='(.*)', flags='([rw])'\)", repr(f))
                    if not t or t[1] != p or t[2] != {"rw": "w", "ro": "r"}[o["intent"]]:
                        o["failed"] = repr(f)
                    str(f)
                    # collections know what was there when they were read, and what was added by themselves
                    if not set(f.universes.names) <= set(o["content"]["unis"]):
                        o["failed"] = "universes"
            except Exception as e:
                o["failed"] = type(e).__name__ + ": " + str(e)[:200]
        return r


if __name__ == "__main__":
    run_histories(World)
