# Arrays of texts, stored and read as NumPy arrays of Unicode or byte strings
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run_histories, HistoryError
import numpy as np
import lue.data_model as ldm

NONE = 99999
TEXT = {"empty": "", "a": "a", "b": "b", "ab": "ab", "abc": "abc", "space": " ", "inner": "a b", "trailing": "ab  ", "leading": " ab",
        "newline": "a\nb\n", "tab": "\t", "two": "é", "twos": "ñeptùne", "three": "日本語", "four": "🌳", "fours": "🌳🌲a", "mixed": "aé日🌳z",
        "high": "\U0010ffff", "bom": "\ufeffbom", "swappedbom": "\ufffe", "combining": "e\u0301", "ff": "ÿ", "del": "\x7f", "low": "\x01",
        "edge2": "\u07ff\u0800", "edge3": "\uffff\U00010000", "nbsp": "\u00a0x\u00a0", "long": "x" * 300, "longwide": "日" * 120 + "b",
        "quote": "'\"\\", "digits": "0123456789", "upper": "AB", "right": "\u202eab"}
NAME = {v: k for k, v in TEXT.items()}
BAD = {"nul": "a\0b", "surrogate": "a\ud800"}


def name(t):
    return NAME.get(t, "?" + repr(t)[:80])


class World:
    def __init__(self, d, h):
        self.ds = self.array = None

    def values(self, op):
        texts = [TEXT[t] if t in TEXT else BAD[t] for t in op["texts"]]
        form = op["form"]
        if form == "S":
            encoded = [b"\xff\xfe" if t in ("nul", "surrogate") else TEXT[t].encode() for t in op["texts"]]
            a = np.array(encoded, dtype="S%d" % (max([len(t) for t in encoded] + [1]) + op["extra"]))
        elif form == "list":
            return texts
        elif form == "object":
            a = np.array(texts, dtype=object)
        elif form == "numbers":
            return np.arange(len(texts), dtype=np.int32)
        elif form == "bytes":
            return np.arange(len(texts), dtype=np.uint8)
        elif form == "2d":
            return np.array(texts, dtype="U").reshape(1, -1)
        else:
            a = np.array(texts, dtype="U%d" % (max([len(t) for t in texts] + [1]) + op["extra"]))
        if op["lay"] == "strided":
            b = np.full(2 * len(a) + 1, "other", dtype=a.dtype) if form != "S" else np.full(2 * len(a) + 1, b"other", dtype=a.dtype)
            b[1::2][: len(a)] = a
            return b[1::2][: len(a)]
        if op["lay"] == "reversed":
            return a[::-1].copy()[::-1]
        if op["lay"] == "swapped" and form == "U":
            return a.astype(a.dtype.newbyteorder())
        return a

    def property(self):
        return self.ds.phenomena["thing"].property_sets["set"].texts

    def apply(self, a, op, ret):
        if a == "Make":
            self.kind = op["kind"]
            n = len(op["texts"])
            self.ds = ldm.create_dataset("texts.lue")
            ph = self.ds.add_phenomenon("thing")
            ps = ph.add_property_set("set")
            if self.kind == "same":
                ph.object_id.expand(n)[:] = np.arange(n, dtype=np.uint64)
                self.array = ps.add_property("texts", np.str_).value.expand(n)
            else:
                ph.object_id.expand(2)[:] = np.array([5, 7], dtype=np.uint64)
                v = ps.add_property("texts", np.str_, rank=1).value
                v.expand(np.array([5, 7], dtype=np.uint64), np.array([[3], [n]], dtype=np.uint64))
                self.array = v[7]
            self.array[:] = self.values(op)
        elif a == "Put":
            self.array[slice(*[None if op["at"][f] == NONE else op["at"][f] for f in "abc"])] = self.values(op)
        elif a == "Read":
            got = self.array[slice(*[None if op["at"][f] == NONE else op["at"][f] for f in "abc"])]
            ret["texts"] = [name(str(t)) for t in got]
            ret["kind"] = got.dtype.kind
        elif a == "PutOne":
            self.array[op["i"]] = np.str_(TEXT[op["text"]]) if op["how"] == 1 else np.array(TEXT[op["text"]]) if op["how"] == 2 else TEXT[op["text"]]
        elif a == "ReadOne":
            ret["text"] = name(str(self.array[op["i"]]))
        elif a == "Expand":
            k = len(op["texts"])
            n = self.array.shape[0]
            self.ds.phenomena["thing"].object_id.expand(k)[n:] = np.arange(n, n + k, dtype=np.uint64)
            self.array = self.property().value.expand(k)
            self.array[n:] = self.values(op)
        elif a == "Reopen":
            self.array = self.ds = None
            self.ds = ldm.open_dataset("texts.lue", "w")
            self.array = self.property().value if self.kind == "same" else self.property().value[7]
        else:
            raise HistoryError("unknown operation " + a)

    def observe(self):
        if self.array is None:
            return {"texts": ["?"]}
        try:
            return {"texts": [name(str(t)) for t in self.array[:]]}
        except Exception as e:
            return {"texts": ["?" + str(e)[:200]]}


run_histories(World)
