"""Properties with a specification per subject, behaviours replayed in the C++ API, traces validated."""
import concurrent.futures, json, os
import build as B, vlib as V

TARGETS = ["lue_hdf5"]

# property -> driver, specification, histories, length, bound of the exhaustive check
PLAN = {
    "H01": dict(driver="h5_handles", spec="LueHandles", num=320, depth=60, bound=4),
    "H02": dict(driver="h5_files", spec="LueFiles", num=240, depth=60, bound=5, targets=["lue_hdf5", "lue_data_model"]),
    "H03": dict(driver="h5_arrays", spec="LueArrays", num=640, depth=60, bound=1, targets=["lue_hdf5", "lue_data_model"]),
    "H04": dict(driver="h5_attributes", spec="LueAttributes", num=480, depth=60, bound=3),
    "H05": dict(driver="h5_groups", spec="LueGroups", num=480, depth=60, bound=4),
    "H06": dict(driver="h5_chunk", spec="LueChunk", num=160, depth=150, bound=4),
    "H07": dict(driver="h5_types", spec="LueTypes", num=480, depth=80, bound=3),
    "R01": dict(driver="hl_views", spec="LueViews", num=320, depth=60, bound=4,
                targets=["lue_hdf5", "lue_data_model", "lue_data_model_hl"]),
    "R02": dict(driver="hl_cells", spec="LueCells", num=640, depth=60, bound=4,
                targets=["lue_hdf5", "lue_data_model", "lue_data_model_hl"]),
    "G01": dict(driver="gd_blocks", spec="LueBlocks", num=320, depth=100, bound=6, targets=["lue_gdal"], more=4, assumptions=[]),
    "G02": dict(driver="gd_compare", spec="LueCompare", num=320, depth=60, bound=3, targets=["lue_gdal"],
                assumptions=["GDAL does what it documents"]),
    "G03": dict(driver="gd_rasters", spec="LueRasters", num=480, depth=60, bound=3, targets=["lue_gdal"],
                assumptions=["GDAL does what it documents"]),
    "Y01": dict(driver="py_index", spec="LueIndexing", num=480, depth=60, bound=1, targets=["lue_py"],
                assumptions=["NumPy is the norm: the specification is compared with it in every event"]),
    "Y02": dict(driver="py_texts", spec="LueTexts", num=320, depth=60, bound=1, targets=["lue_py"], more=0),
    "Q02": dict(driver="py_sizes", spec="LueSizes", num=320, depth=60, bound=1, targets=["lue_py"], more=0, assumptions=[]),
    "Q01": dict(driver={"cpp": "qa_runs", "py": "py_runs"}, preload="clock.so", spec="LueRuns", num=320, depth=60, bound=3, targets=["lue_py", "lue_qa"],
                assumptions=["the clocks of the computer do not get adjusted during a history, other than by the history"]),
    "Y04": [dict(driver="py_views", project="hl_views_project.so", spec="LueViews", num=160, depth=60, bound=4, targets=["lue_py"]),
            dict(driver="py_cells", project="hl_cells_project.so", spec="LueCells", num=240, depth=60, bound=4, targets=["lue_py"])],
    "Y05": dict(driver="py_files", project="h5_files_project.so", spec="LueFiles", num=240, depth=60, bound=5, targets=["lue_py"]),
    "M13": dict(driver="dm_clocks", spec="LueClocks", num=320, depth=80, bound=1, targets=["lue_hdf5", "lue_data_model"]),
}


def driver_of(driver, h):
    """A driver, or one per language that histories are performed in"""
    return driver[h["ops"][0]["lang"]] if isinstance(driver, dict) else driver


def build(p):
    d = p["driver"]
    B.build((list(d.values()) if isinstance(d, dict) else [d]) + [p[k] for k in ("preload", "project") if k in p], p.get("targets", TARGETS))


def run(p, H, d):
    res = {}
    env = {"LD_PRELOAD": os.path.join(B.DRV, p["preload"])} if "preload" in p else None
    if "project" in p:
        env = {p["project"][:-3].upper(): os.path.join(B.DRV, p["project"]), "MALLOC_PERTURB_": "165", "PYTHONHASHSEED": "0"}
    for name in sorted({driver_of(p["driver"], h) for h in H}):
        todo = [h for h in H if driver_of(p["driver"], h) == name]
        res.update(V.run_driver(name, todo, os.path.join(d, name), env=env))
    return res


def judge(ctx, hs, p):
    module = p["spec"] + "Trace"
    H = [dict(h=k + 1, v=k, ops=ops) for k, ops in enumerate(hs)]
    res = run(p, H, ctx.sub("run" + p["spec"]))
    done = [h for h in H if res.get(h["h"]) is not None]
    val = V.validate(module, [(h["h"], res[h["h"]]) for h in done], ctx.scratch)
    ctx.count("traces_validated_against_impl", len(done))
    ctx.count("events", sum(len(res[h["h"]]) for h in done))
    for h in [h for h in done if val[h["h"]]][:3]:
        info = val[h["h"]]
        short = dict(h, ops=h["ops"][:info["index"] + 1])
        again = run(p, [short], ctx.sub("again%s%d" % (p["spec"], h["h"])))
        v2 = V.validate(module, [(short["h"], again[short["h"]])], ctx.scratch)
        e = v2[short["h"]] or info
        ev = e["event"]
        what = "%s: %s the implementation does something else than the specification (%s): %s" % (
            json.dumps(ev["op"]), "" if v2[short["h"]] else "(not when run again)",
            ", ".join(e.get("wrong", [])), json.dumps(dict(expected=e.get("expected"), res=ev.get("res"), ret=ev.get("ret"),
                                                          obs=ev.get("obs"), msg=ev.get("msg")))[:2500])
        ctx.violation(what, {"history": short, "spec": p["spec"]})
    ops = ctx.cov.setdefault("operations", {})
    for h in done:
        for e in res[h["h"]]:
            k = e["op"]["a"] + (":refused" if e["res"] == "err" else "")
            ops[k] = ops.get(k, 0) + 1
    ctx.cov.setdefault("samples", []).extend([done[0]["ops"][:6], done[-1]["ops"][:6]])
    return done, res


def check(ctx):
    plans = PLAN[ctx.pid] if isinstance(PLAN[ctx.pid], list) else [PLAN[ctx.pid]]
    for p in plans:
        check_plan(ctx, p)


def check_plan(ctx, p):
    build(p)
    f = 1 if ctx.quick() else 15
    bound = p["bound"] + (0 if ctx.quick() else p.get("more", 1))

    def mc():
        g, d = V.model_check(p["spec"] + "MC", p["spec"] + "MC.cfg", env={"BOUND": str(bound), "FOCUS": ctx.pid})
        ctx.count("transitions", g)
        ctx.count("states", d)

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        m = ex.submit(mc)
        hs = V.generate(p["spec"] + "Gen", ctx.pid, p["num"] * f, p["depth"], V.SEED)
        judge(ctx, hs, p)
        m.result()
    ctx.assumptions += p.get("assumptions", ["the HDF5 library does what it documents"])


def replay(r):
    p = PLAN[r["property"]]
    how = json.loads(r["replay"])
    if isinstance(p, list):
        p = [q for q in p if q["spec"] == how["spec"]][0]
    build(p)
    ctx = V.Ctx("replay", "quick")
    h = how["history"]
    res = run(p, [h], ctx.scratch)
    v = V.validate(p["spec"] + "Trace", [(h["h"], res[h["h"]])], ctx.scratch)
    print(json.dumps(v, indent=1))
    return 1 if v[h["h"]] else 0
