"""Properties of the data model: behaviours of LueData replayed in the C++ API, and the recorded traces validated."""
import concurrent.futures, json, os
import build as B, vlib as V

DRIVER = "dm_driver"
TARGETS = ["lue_hdf5", "lue_data_model"]

# property -> [(focus, number of behaviours, length)], [(instance, bound)]
PLAN = {
    "M01": ([("M01", 160, 50)], [("structure", 5)]),
    "M02": ([("M02", 144, 45)], [("domains", 3), ("variable", 3)]),
    "M03": ([("M03", 160, 45)], [("structure", 5), ("different", 4)]),
    "M04": ([("M04", 120, 45)], [("sharing", 4)]),
    "M05": ([("M05", 120, 50)], [("domains", 4)]),
    "M06": ([("M06", 144, 50)], [("domains", 4)]),
    "M07": ([("M07", 144, 50)], [("domains", 4), ("disc", 3)]),
    "M08": ([("M08", 160, 50)], [("disc", 4)]),
    "M09": ([("M09", 120, 50)], [("same", 6)]),
    "M10": ([("M10", 120, 50)], [("different", 5)]),
    "M11": ([("M11", 120, 50)], [("variable", 4)]),
    "Y03": ([("Y03", 120, 45)], [("structure", 4), ("disc", 3)]),
    "M12": ([("M12", 160, 60), ("M12d", 160, 60)], [("valid", 5)]),
}


def driver_history(k, ops):
    return {"h": k + 1, "v": k % 11, "small": any(o.get("a") == "Validate" for o in ops), "ops": ops}


def drivers(pid):
    """Builds what the replay needs; name of the driver, environment"""
    if pid == "Y03":
        B.build(["dm_project.so"], TARGETS + ["lue_py"])
        return "py_data", {"DM_PROJECT": os.path.join(B.DRV, "dm_project.so"), "MALLOC_PERTURB_": "165", "PYTHONHASHSEED": "0"}
    B.build([DRIVER], TARGETS)
    return DRIVER, None


def judge(ctx, hs, module="LueDataTrace", driver=DRIVER, env=None):
    """Replays histories; what the specification does not allow is run once more before it is reported"""
    H = [driver_history(k, ops) for k, ops in enumerate(hs)]
    res = V.run_driver(driver, H, ctx.sub("run"), env=env)
    done = [h for h in H if res.get(h["h"]) is not None]
    val = V.validate(module, [(h["h"], res[h["h"]]) for h in done], ctx.scratch)
    bad = [h for h in done if val[h["h"]]]
    ctx.count("traces_validated_against_impl", len(done))
    ctx.count("events", sum(len(res[h["h"]]) for h in done))
    for h in bad[:3]:
        info = val[h["h"]]
        short = dict(h, ops=h["ops"][:info["index"] + 1])
        again = V.run_driver(driver, [short], ctx.sub("again%d" % h["h"]), env=env)
        v2 = V.validate(module, [(h["h"], again[h["h"]])], ctx.scratch)
        if v2[h["h"]]:
            e = v2[h["h"]]
            what = "the implementation does something else than %s: %s (%s)" % (
                "the specification", json.dumps(e["event"]["op"]),
                json.dumps({k: e.get(k) for k in ("wrong", "expected", "exp", "got")})[:1500]
                + " res=" + str(e["event"].get("res")) + " " + str(e["event"].get("msg", ""))[:300])
            ctx.violation(what, {"driver": driver, "module": module, "history": short})
        else:
            ctx.notes.append("a rejected history was accepted when run again")
            ctx.violation("a history is rejected in the company of others, but not on its own: %s"
                          % json.dumps(info)[:1500], {"driver": driver, "module": module, "history": h})
    return done, res


def model(ctx, insts, module="LueDataMC"):
    for focus, bound in insts:
        g, d = V.model_check(module, module + ".cfg", env={"FOCUS": focus, "BOUND": str(bound)}, workers=4)
        ctx.count("transitions", g)
        ctx.count("states", d)


def check(ctx):
    driver, env = drivers(ctx.pid)
    gens, insts = PLAN[ctx.pid]
    f = 1 if ctx.quick() else 12
    if not ctx.quick():
        insts = [(n, b + 1) for n, b in insts]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        mc = ex.submit(model, ctx, insts)
        hs = []
        for i, (focus, num, depth) in enumerate(gens):
            hs += V.generate("LueDataGen", focus, num * f, depth, V.SEED + 100 * i)
        done, res = judge(ctx, hs, driver=driver, env=env)
        mc.result()
    ops = {}
    for h in done:
        for e in res[h["h"]]:
            k = e["op"]["a"] + (":refused" if e["res"] == "err" else "")
            ops[k] = ops.get(k, 0) + 1
    ctx.cov["operations"] = ops
    ctx.cov["samples"] = [done[0]["ops"][:6], done[-1]["ops"][:6]]
    ctx.assumptions += ["sizes, names, ids, ticks and values are drawn from the pools of the driver",
                        "the HDF5 library stores what it is told to"]


def replay(r):
    p = json.loads(r["replay"])
    driver, env = drivers(r["property"])
    ctx = V.Ctx("replay", "quick")
    h = p["history"]
    res = V.run_driver(driver, [h], ctx.scratch, env=env)
    v = V.validate(p["module"], [(h["h"], res[h["h"]])], ctx.scratch)
    print(json.dumps(v, indent=1))
    return 1 if v[h["h"]] else 0
