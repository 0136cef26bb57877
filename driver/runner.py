"""Runs histories of operations through the Python API, like runner.hpp does for the C++ API: each in a world of its
own, in a scratch directory. An event per operation holds the operation, its outcome, what it returned and what is
observed afterwards."""
import gc, json, os, shutil, sys


class HistoryError(Exception):
    """The history asks for something that is not there: a mistake in the machinery"""


def run_histories(world):
    fin, fout, top = sys.argv[1:4]
    with open(fout, "w") as out:
        for line in open(fin):
            if not line.strip():
                continue
            h = json.loads(line)
            d = os.path.join(top, "w")
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            os.chdir(d)
            w = world(d, h)
            for i, op in enumerate(h["ops"]):
                ev = {"h": h["h"], "i": i + 1, "op": op, "msg": ""}
                ret = {}
                try:
                    w.apply(op["a"], op, ret)
                    ev["res"] = "ok"
                except HistoryError as e:
                    print(e, "in", json.dumps(op), flush=True)
                    sys.exit(3)
                except Exception as e:
                    ev["res"] = "err"
                    ev["msg"] = str(e)[:300]
                    ret["exc"] = type(e).__name__
                ev["ret"] = ret
                ev["obs"] = w.observe()
                out.write(json.dumps(ev) + "\n")
                out.flush()
            del w
            gc.collect()
            os.chdir(top)
            shutil.rmtree(d)
