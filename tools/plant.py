#!/usr/bin/env python3
"""Tries planted bugs, each in an overlay of /repo and /verif/build of its own.
plant.py confirm <id>...        patch applies, builds, stable tests pass, demo passes without and fails with the patch
plant.py check <id>[:<pid>]...  runs the check of the property (or <pid>) against the patched tree
plant.py both <id>..."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def ns(script, timeout=1500):
    """Runs the bash script with overlays over /repo and /verif/build (and evidence)"""
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    pre = "set -e\n"
    for i, p in enumerate(["/repo", ROOT + "/build", ROOT + "/evidence"]):
        os.makedirs("%s/%d/up" % (d, i)); os.makedirs("%s/%d/wk" % (d, i))
        pre += "mount -t overlay overlay -o lowerdir=%s,upperdir=%s/%d/up,workdir=%s/%d/wk,userxattr %s\n" % (p, d, i, d, i, p)
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + "set +e\nexport T=%s\ncd /repo\n" % d + script],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", d])
        shutil.rmtree(d, ignore_errors=True)


def seed(i):
    return os.path.join(ROOT, "seeded", i)


def confirm(i):
    s = seed(i)
    rc, out = ns("""
bash /opt/vp/build.sh >$T/b0 2>&1 || { tail -30 $T/b0; echo BASEBUILD; exit 9; }
bash %(s)s/demo.sh >$T/d0 2>&1; echo "DEMO0 $?"; tail -5 $T/d0
git apply %(s)s/patch.diff || { echo NOAPPLY; exit 9; }
bash /opt/vp/test.sh $T/o.json >$T/t 2>&1 || { tail -40 $T/t; echo BUILDFAIL; exit 9; }
echo "JSON $(python3 -c 'import json,sys; print(json.dumps(json.load(open(sys.argv[1]))))' $T/o.json)"
bash %(s)s/demo.sh >$T/d1 2>&1; echo "DEMO1 $?"; tail -5 $T/d1
""" % dict(s=s))
    res = {}
    passed = set()
    for l in out.splitlines():
        if l.startswith("DEMO"):
            res[l.split()[0]] = int(l.split()[1])
        if l.startswith("JSON "):
            passed = set(json.loads(l[5:])["passed"])
    lost = sorted(STABLE - passed)
    ok = res.get("DEMO0") == 0 and res.get("DEMO1", 0) != 0 and not lost
    txt = "" if ok else " lost=%s %s\n%s" % (lost[:5], res, "\n".join(x for x in out.splitlines() if not x.startswith("JSON"))[-3000:])
    return "%s: %s%s" % (i, "confirmed" if ok else "NOT CONFIRMED", txt)


def check(i):
    i, _, pid = i.partition(":")
    pids = pid.split(",") if pid else [json.load(open(seed(i) + "/meta.json"))["property"]]
    r = []
    for pid in pids:
        rc, out = ns("git apply %s/patch.diff || exit 9\ncd %s\npython3 checks/run.py %s %s" % (
            seed(i), ROOT, pid, os.environ.get("TIER", "quick")))
        r.append("%s by %s: rc=%d %s\n    %s" % (i, pid, rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % pid in out else "MISSED" if rc == 0 else "BROKEN",
                                             out.strip()[:250 if rc == 1 else 3000].replace("\n", "\n    ")))
    return "\n".join(r)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd in ("confirm", "both"):
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for r in ex.map(confirm, ids):
                print(r, flush=True)
    if cmd in ("check", "both"):
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for r in ex.map(check, ids):
                print(r, flush=True)
