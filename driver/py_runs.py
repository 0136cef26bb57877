"""Runs, experiments and their saved results, through the Python API (Q01)"""
import ctypes, datetime, json, math, os, re, time
import runner
import lue.qa.scalability.instrument as I

CLOCK = ctypes.CDLL(None)


def clamp(v):
    return max(-2000000000, min(2000000000, int(v)))


def fields(j, *names):
    if not isinstance(j, dict) or set(j) != set(names):
        raise ValueError("fields %s" % (sorted(j),))


def number(j):
    return str(j) if type(j) is int else "not a number: %r" % (j,)


def pair(j):
    a, b = j
    return [number(a), number(b)]


class World:
    def __init__(self, d, h):
        CLOCK.verif_reset()
        os.mkdir("d")
        self.vars, self.kinds = {}, {}
        self.zone("UTC")
        self.s0 = math.floor(time.time())
        self.t0 = time.monotonic_ns()

    def zone(self, z):
        os.environ["TZ"] = z
        time.tzset()

    def wall(self):
        return clamp((time.time_ns() - self.s0 * 10**9) // 1000)

    def steady(self):
        return clamp((time.monotonic_ns() - self.t0) // 1000)

    def apply(self, a, op, ret):
        self.time = dict(t0=self.steady(), s0=self.wall())
        try:
            self.perform(a, op)
        finally:
            self.time.update(t1=self.steady(), s1=self.wall())

    def perform(self, a, op):
        if a == "Begin":
            self.zone(op["zone"])
        elif a == "Wait":
            CLOCK.usleep(op["us"])
        elif a in ("Pass", "Adjust"):
            (CLOCK.verif_pass if a == "Pass" else CLOCK.verif_adjust)(ctypes.c_longlong(op["us"] * 1000))
        elif a == "Fill":
            with open(op["path"], "w") as f:
                f.write("}" * op["n"])
        elif a == "Remove":
            if os.path.exists(op["path"]):
                os.remove(op["path"])
        elif a == "New":
            self.vars[op["v"]] = self.new(op)
            self.kinds[op["v"]] = op["kind"]
        elif a == "Drop":
            del self.vars[op["v"]]
        elif a == "Start":
            self.vars[op["v"]].start()
        elif a == "Stop":
            self.vars[op["v"]].stop()
        elif a == "Add":
            self.vars[op["v"]].add(self.vars[op["from"]])
        elif a == "Save":
            I.save_results(self.vars[op["v"]], op["path"])
        elif a == "Bad":
            self.bad(op["what"], self.vars[op["v"]])
        else:
            raise runner.HistoryError("operation " + a)

    def new(self, op):
        if op["kind"] == "run":
            return I.Run()
        workers = int(op["workers"])
        if op["kind"] == "experiment":
            return I.Experiment(nr_workers=workers) if op["how"] == "names" else I.Experiment(workers)
        f = list if op["how"] == "list" else tuple
        ash, psh = f(map(int, op["ash"])), f(map(int, op["psh"]))
        if op["how"] == "names":
            return I.ArrayExperiment(partition_shape=psh, array_shape=ash, nr_workers=workers)
        return I.ArrayExperiment(workers, ash, psh)

    def bad(self, what, x):
        a = (3, 4)
        {"negative": lambda: I.Experiment(-1),
         "negative extent": lambda: I.ArrayExperiment(1, (3, -4), a),
         "large": lambda: I.ArrayExperiment(2**64, a, a),
         "float": lambda: I.Experiment(1.5),
         "text": lambda: I.Experiment("1"),
         "short": lambda: I.ArrayExperiment(1, (3,), a),
         "long": lambda: I.ArrayExperiment(1, a, (1, 2, 3)),
         "scalar": lambda: I.ArrayExperiment(1, 3, a),
         "none": lambda: I.ArrayExperiment(1, a, None),
         "add number": lambda: x.add(5),
         "add nothing": lambda: x.add(None),
         "save experiment": lambda: I.save_results(I.Experiment(1), "f1"),
         "save run": lambda: I.save_results(I.Run(), "f1"),
         "save path": lambda: I.save_results(x, 5),
         "set workers": lambda: setattr(x, "nr_workers", 5),
         "set shape": lambda: setattr(x, "array_shape", a)}[what]()

    def start(self, s):
        if not re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d[+-]\d{4}", s):
            raise ValueError("time " + s)
        return clamp(datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S%z").timestamp() - self.s0)

    def file(self, path):
        if not os.path.exists(path):
            return dict(how="absent")
        try:
            with open(path) as f:
                j = json.load(f)
            fields(j, "start", "duration", "unit", "environment", "task", "timings")
            fields(j["environment"], "nr_workers")
            fields(j["task"], "array_shape", "partition_shape")
            timings = []
            for t in j["timings"]:
                fields(t, "start", "duration")
                timings.append(dict(start=self.start(t["start"]), duration=clamp(t["duration"])))
            return dict(how="saved", unit=j["unit"], start=self.start(j["start"]), duration=clamp(j["duration"]),
                        workers=number(j["environment"]["nr_workers"]), ash=pair(j["task"]["array_shape"]),
                        psh=pair(j["task"]["partition_shape"]), timings=timings)
        except Exception as e:
            return dict(how="other", why=str(e)[:200])

    def observe(self):
        vars = {}
        for name, x in self.vars.items():
            o = {}
            if self.kinds[name] != "run":
                o["workers"] = number(x.nr_workers)
            if self.kinds[name] == "array":
                o["ash"], o["psh"] = pair(x.array_shape), pair(x.partition_shape)
            vars[name] = o
        return dict(time=self.time, vars=vars, files={f: self.file(f) for f in ["f1", "f2"]})


runner.run_histories(World)
