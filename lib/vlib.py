"""Shared machinery of the checks: generating behaviours with TLC, running drivers, validating traces with TLC."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself did not work"""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.violations = []
        self.known = []
        self.cov = {}
        self.notes = []
        self.assumptions = []

    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def violation(self, what, payload, name="case"):
        """payload: dict or text that replays the violation"""
        for pat, text in known_findings(self.pid):
            if re.search(pat, what):
                if text not in self.known:
                    self.known.append(text)
                return
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        if not isinstance(payload, str):
            payload = json.dumps(payload, indent=1)
        h = hashlib.sha256((what + payload).encode()).hexdigest()[:10]
        fn = os.path.join(d, "%s-%s-%s.json" % (self.pid, name, h))
        with open(fn, "w") as f:
            f.write(json.dumps({"property": self.pid, "what": what, "replay": payload}, indent=1))
        self.violations.append((what, fn))

    def finish(self, level="model_checking"):
        shutil.rmtree(self.scratch, ignore_errors=True)
        cov = dict(self.cov)
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        fn = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(fn + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(fn + ".tmp", fn)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, rp in self.violations[:5]:
            print(what[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        if not self.violations:
            print("%s: held on everything explored (%.0f s)" % (self.pid, self.elapsed()))
        return 1 if self.violations else 0


def known_findings(pid):
    """Lines `finding: property=<id> /<regular expression>/ <text>` of known_findings.txt"""
    fn = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) /(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def tlc(args, env=None, cwd=SPEC, timeout=600, heap="2g", props=()):
    meta = tempfile.mkdtemp(prefix="tlcmeta-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta] + ["-D" + p for p in props] + \
            ["-cp", tlc_classpath(), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + args
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_cp = None


def tlc_classpath():
    global _cp
    if _cp is None:
        _cp = JARS
        try:
            text = open(shutil.which("tlc")).read()
            m = re.search(r"-cp\s+[\"']?([^\s\"']+)", text)
            if m:
                _cp = m.group(1)
        except OSError:
            pass
    return _cp


def generate(module, focus, num, depth, seed, cfg=None, extra=None, timeout=600, spread=4):
    """Behaviours of the generator module, from TLC's simulator"""
    per = (num + spread - 1) // spread

    def one(i):
        env = {"FOCUS": focus, "DEPTH": str(depth)}
        env.update(extra or {})
        rc, out = tlc(["-workers", "1", "-simulate", "num=%d" % per, "-depth", "1000", "-seed", str(seed * 1000 + i),
                       "-config", cfg or module + ".cfg", module + ".tla"], env=env, timeout=timeout)
        hs = []
        for line in out.splitlines():
            if line.startswith('"HIST '):
                hs.append(json.loads(json.loads(line)[5:]))
        if len(hs) < per:
            raise CheckError("TLC generated %d of %d behaviours\n%s" % (len(hs), per, out[-3000:]))
        return hs

    with concurrent.futures.ThreadPoolExecutor(spread) as ex:
        res = []
        for hs in ex.map(one, range(spread)):
            res += hs
    return res[:num]


def model_check(module, cfg, workers=4, timeout=800, heap="6g", env=None):
    """Exhaustive check of a bounded instance: number of distinct states"""
    rc, out = tlc(["-workers", str(workers), "-config", cfg, module + ".tla"], timeout=timeout, heap=heap, env=env)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or not m:
        raise CheckError("model checking %s with %s failed:\n%s" % (module, cfg, out[-4000:]))
    return int(m.group(1)), int(m.group(2))


def run_driver(name, histories, scratch, timeout=400, parallel=NPROC, env=None, args=()):
    """Runs histories through a driver, each chunk in a process of its own. Returns per history its list of events. A
    history in which the driver ended gets a final event with res = crash."""
    exe = [os.path.join(B.DRV, name)]
    script = os.path.join(VERIF, "driver", name + ".py")
    if os.path.exists(script):
        exe = [B.PYTHON, script]
        env = dict(env or {}, PYTHONPATH=B.pythonpath(), PYTHONDONTWRITEBYTECODE="1")
    chunks = [histories[i::parallel] for i in range(parallel)]
    chunks = [c for c in chunks if c]

    def one(ci):
        todo = list(chunks[ci])
        res = {}
        attempt = 0
        while todo:
            attempt += 1
            d = os.path.join(scratch, "drv-%d-%d" % (ci, attempt))
            os.makedirs(d)
            fin, fout = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
            with open(fin, "w") as f:
                for h in todo:
                    f.write(json.dumps(h) + "\n")
            why = ""
            try:
                p = subprocess.run(exe + [fin, fout, d] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=timeout, cwd=d, env=dict(os.environ, **(env or {})))
                why = "" if p.returncode == 0 else "exit status %d: %s" % (
                    p.returncode, p.stdout.decode("utf-8", "replace")[-500:])
            except subprocess.TimeoutExpired:
                why = "no end in %d s" % timeout
            by = {}
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    by.setdefault(ev["h"], []).append(ev)
            shutil.rmtree(d, ignore_errors=True)
            if not why:
                for h in todo:
                    res[h["h"]] = by.get(h["h"], [])
                break
            # the history that was not finished is the one that failed
            k = 0
            while k < len(todo) and len(by.get(todo[k]["h"], [])) >= len(todo[k]["ops"]) and \
                    k + 1 < len(todo) and todo[k + 1]["h"] in by:
                res[todo[k]["h"]] = by[todo[k]["h"]]
                k += 1
            h = todo[k]
            evs = by.get(h["h"], [])[:len(h["ops"])]
            if len(evs) < len(h["ops"]):
                op = h["ops"][len(evs)]
            else:
                op = h["ops"][-1]
                evs = evs[:-1]
            evs.append({"h": h["h"], "i": len(evs) + 1, "op": op, "res": "crash", "msg": why, "chg": {}, "del": [], "fresh": []})
            res[h["h"]] = evs
            todo = todo[k + 1:]
            if attempt > 6:
                for h in todo:
                    res[h["h"]] = None
                break
        return res

    out = {}
    with concurrent.futures.ThreadPoolExecutor(len(chunks) or 1) as ex:
        for r in ex.map(one, range(len(chunks))):
            out.update(r)
    return out


def scrub(j):
    """JSON TLC can read: it doesn't know null"""
    if j is None:
        return {"null": True}
    if isinstance(j, dict):
        return {k: scrub(v) for k, v in j.items()}
    if isinstance(j, list):
        return [scrub(v) for v in j]
    return j


def validate(module, traces, scratch, cfg=None, parallel=NPROC, timeout=600, env=None, heap="3g"):
    """traces: list of (key, [event]). Returns {key: mismatch or None}. Traces of several histories are put after each
    other; TLC stops at the first event that the specification does not allow, and continues with the next history."""
    chunks = [traces[i::parallel] for i in range(parallel)]
    chunks = [c for c in chunks if c]

    def one(ci):
        todo = list(chunks[ci])
        res = {}
        rounds = 0
        while todo:
            rounds += 1
            fn = os.path.join(scratch, "trace-%s-%d.ndjson" % (module, ci))
            first = []
            line = 0
            with open(fn, "w") as f:
                for key, evs in todo:
                    first.append(line)
                    for ev in evs:
                        f.write(json.dumps(scrub(ev)) + "\n")
                        line += 1
            rc, out = tlc(["-workers", "1", "-config", cfg or module + ".cfg", module + ".tla"],
                          env=dict(env or {}, TRACE_FILE=fn), timeout=timeout, heap=heap)
            os.unlink(fn)
            if rc == 0 and "No error has been found" in out:
                for key, evs in todo:
                    res[key] = None
                break
            m = re.search(r'"MISMATCH", (\d+), (".*")', out.replace("\n", " "))
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if not m and ls and re.search("Attempted to (check|compare|apply|select|access|enumerate)", out) and \
                    "Json.ndDeserialize" not in out:
                # What is reported isn't even of the kind of what the specification expects (say, text instead of a number)
                at = out.find("Attempted to")
                why = json.dumps(json.dumps({"wrong": ["kind"], "why": " ".join(out[at:at + 300].split())}))
                m = re.search(r'"MISMATCH", (\d+), (".*")', '"MISMATCH", %s, %s' % (ls[-1], why), re.S)
            if not m:
                at = out.find("Error:")
                raise CheckError("TLC on trace failed:\n" + out[max(at, 0):max(at, 0) + 2500] + "\n...\n" + out[-1500:])
            at = int(m.group(1)) - 1
            k = max(i for i in range(len(todo)) if first[i] <= at)
            for j in range(k):
                res[todo[j][0]] = None
            s = m.group(2)
            try:
                dec = json.JSONDecoder()
                txt, _ = dec.raw_decode(s)
                info = json.loads(txt)
            except ValueError:
                info = {"text": s[:2000]}
            info["event"] = todo[k][1][at - first[k]]
            info["index"] = at - first[k]
            res[todo[k][0]] = info
            todo = todo[k + 1:]
            if rounds >= 4:
                for key, evs in todo:
                    res[key] = None
                break
        return res

    out = {}
    with concurrent.futures.ThreadPoolExecutor(len(chunks) or 1) as ex:
        for r in ex.map(one, range(len(chunks))):
            out.update(r)
    return out
