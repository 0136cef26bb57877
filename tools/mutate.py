#!/usr/bin/env python3
"""Samples small mechanical changes to LUE's sources and tells which of them the existing tests, or the checks, notice.
mutate.py SNAPSHOT OUT SEED COUNT [FILE-REGEX]   SNAPSHOT: directory with copies repo/ and verif/ (never changed: overlays)"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
D = "source/data_model/"
PLAN = [    # file -> checks, the first to notice ends the search
    (D + r"hdf5/source/(chunk)", ["H06"]),
    (D + r"hdf5/source/(datatype|memory_datatype|file_datatype|type)", ["H07", "H03", "M05"]),
    (D + r"hdf5/source/(identifier|object_info|primary)", ["H01", "H05", "M01"]),
    (D + r"hdf5/source/(dataset|dataspace|hyperslab|array|shape|property_list)", ["H03", "H01", "H06", "M05"]),
    (D + r"hdf5/source/attribute", ["H04", "H01", "M01"]),
    (D + r"hdf5/source/(file|error)", ["H02", "H01", "M01"]),
    (D + r"hdf5/source/", ["H05", "H01", "H04", "M01", "M12"]),
    (D + r"gdal/source/blocks", ["G01"]),
    (D + r"gdal/source/compare", ["G02"]),
    (D + r"gdal/source/", ["G03", "G02"]),
    (D + r"hdf5/include/lue/hdf5/(dataset|array|hyperslab|shape)", ["H03", "H01", "M05"]),
    (D + r"hdf5/include/lue/hdf5/(attribute)", ["H04", "H01"]),
    (D + r"hdf5/include/lue/hdf5/(datatype)", ["H07", "H03"]),
    (D + r"hdf5/include/", ["H05", "H01", "H03", "H04", "M01"]),
    (D + r"gdal/include/", ["G03", "G02", "G01"]),
    (D + r"hl/", ["R01", "R02", "Y04"]),
    (D + r"python/source/core/array", ["Y01", "Y02"]),
    (D + r"python/source/hl", ["Y04"]),
    (D + r"python/source/", ["Y03", "Y04", "Y01"]),
    (D + r"cxx/source/validate", ["M12"]),
    (D + r"cxx/source/core/(clock|time)", ["M13", "M06", "Y03"]),
    (D + r"cxx/source/(object/time|core/(clock|time)|info/time|object/space)", ["M06", "M04", "M07", "M01", "M02"]),
    (D + r"cxx/source/array/different_shape", ["M03", "M05", "M02", "M10", "M01"]),
    (D + r"cxx/source/array/same_shape", ["M02", "M03", "M10", "M11", "M01"]),
    (D + r"cxx/source/object/property", ["M01", "M09", "M08", "M11", "M02", "M04"]),
    (D + r"cxx/source/object/identity", ["M12", "M07", "M02", "M04"]),
    (D + r"cxx/include/.*(clock|epoch|duration|tick|unit)", ["M13", "M06"]),
    (D + r"cxx/", ["M01", "M02", "M04", "M06", "M07", "M12"]),
    (r"source/quality_assurance/cxx", ["Q01"]),
    (r"source/quality_assurance/python", ["Q01"]),
    (r"source/quality_assurance/scalability", ["Q02"]),
]
SWAPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), ("&&", "||"), ("||", "&&"),
         (" and ", " or "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" * ", " + "), (" / ", " * "), (" % ", " / "),
         ("true", "false"), ("false", "true"), ("True", "False"), ("False", "True"), ("++", "--"), ("if (!", "if ("), ("if not ", "if "),
         ("constant_shape", "variable_shape"), ("variable_shape", "constant_shape"), ("same_shape", "different_shape"),
         ("::stationary", "::mobile"), ("::mobile", "::stationary"), ("::point", "::box"), ("::box", "::point"), ("std::min", "std::max"), ("std::max", "std::min"),
         ("constant_collection", "variable"), ("::none", "::regular_grid"), ("space_", "time_"), ("time_", "space_"), ("SIGNED", "UNSIGNED"),
         ("file_datatype", "memory_datatype"), ("memory_datatype", "file_datatype"), ("uint8", "int8"), ("int16", "uint16"), ("uint64", "int64"), ("uint32", "int32"), ("int64", "uint64"), ("int32", "uint32"),
         ("float32", "float64"), ("float64", "float32"), ("front()", "back()"), ("back()", "front()"), ("begin()", "begin() + 1"), ("throw std::", "(void)std::"),
         ("raise ", "return "), ("continue;", "break;"), ("ceil", "floor"), ("floor", "ceil"), ("[0]", "[1]"), ("[1]", "[0]"), (".add_error(", ".add_warning("), ("add_error", "add_warning")]


def mutants(root, rnd, count, pattern):
    files = []
    for base in (D + "hdf5/include", D + "cxx/include", D + "gdal/include", D + "hl/include", "source/quality_assurance/cxx/include", D + "hdf5/source", D + "cxx/source", D + "hl/source", D + "gdal/source", D + "python/source",
                 "source/quality_assurance/cxx/source", "source/quality_assurance/python/source", "source/quality_assurance/scalability/command/scalability/experiment"):
        for d, _, fs in os.walk(os.path.join(root, base)):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), root)
                if f.endswith((".cpp", ".hpp", ".py")) and "/test" not in p and "_results" not in p and "generate_script" not in p and "/job.py" not in p and re.search(pattern, p):
                    files.append(p)
    all_ = []
    for p in sorted(files):
        lines = open(os.path.join(root, p)).read().split("\n")
        raw = False
        for i, l in enumerate(lines):
            s = l.strip()
            if 'R"(' in l:
                raw = True
            if raw:
                raw = ')"' not in l
                continue
            if p.endswith(".py"):
                if s.startswith(("#", "import", "from", "assert", '"', "def ", "class ", "@")):
                    continue
            elif not s or s.startswith(("//", "/*", "*", "#", "assert", "namespace", "using", "template", "static_assert", "py::", "@")):
                continue
            if p.endswith(".hpp") and (not l.startswith("        ") or not re.search(r"return|if |for |while|=|\(.*;", s) or "operator" in s or re.match(r"(explicit|static|virtual|auto|inline|void) ", s)):
                continue
            if "status" in l or "PARALLEL" in l or '"_a' in l or "release_mode" in l or not re.search(r"[;{}()=]", s):
                continue
            for a, b in SWAPS:
                k = -1
                while True:
                    k = l.find(a, k + 1)
                    if k < 0:
                        break
                    if a[0].isalpha() and k and (l[k - 1].isalnum() or l[k-1] == "_" and a not in ("space_", "time_")):
                        continue
                    all_.append((p, i, l, l[:k] + b + l[k + len(a):]))
            m = re.search(r"\b(\d+)\b", l)
            if m and '"' not in l:
                all_.append((p, i, l, l[:m.start()] + ("1" if m.group(1) == "0" else "0") + l[m.end():]))
            if not p.endswith(".py") and s.endswith(";") and re.match(r"[_a-zA-Z:*]", s) and "return" not in s and "throw" not in s \
                    and not re.match(r"[\w:<>,*& ]+ [&*]*\w+(\{.*\}|\(.*\)|\[.*\])?( = .*)?;$", s) and i and lines[i - 1].rstrip().endswith((";", "{", "}")) \
                    or s == "}" and False:
                all_.append((p, i, l, l[:len(l) - len(l.lstrip())] + ";"))
    rnd.shuffle(all_)
    # spread over files: at most a few per file at first
    seen, chosen, rest = {}, [], []
    for m in all_:
        n = len(open(os.path.join(root, m[0])).read()) // 1500 + 1
        if seen.get(m[0], 0) < n:
            seen[m[0]] = seen.get(m[0], 0) + 1
            chosen.append(m)
        else:
            rest.append(m)
    return (chosen + rest)[:count]


def run(snap, m):
    p, i, old, new = m
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        os.makedirs(d + "/t")
        s = "set -e\n"
        for k, (low, at) in enumerate([(snap + "/repo", "/repo"), (snap + "/verif", "/verif")]):
            os.makedirs("%s/%d/up" % (d, k)); os.makedirs("%s/%d/wk" % (d, k))
            s += "mount -t overlay overlay -o lowerdir=%s,upperdir=%s/%d/up,workdir=%s/%d/wk,userxattr %s\n" % (low, d, k, d, k, at)
        json.dump([p, i, new], open(d + "/m.json", "w"))
        s += """set +e
export TMPDIR=%s/t
python3 - <<'X'
import json
p, i, new = json.load(open("%s/m.json"))
l = open("/repo/" + p).read().split("\\n")
l[i] = new
open("/repo/" + p, "w").write("\\n".join(l))
X
timeout 600 bash /opt/vp/test.sh %s/o.json >%s/log 2>&1 || { tail -c 600 %s/log; echo; echo NOBUILD; exit 0; }
""" % (d, d, d, d, d)
        r = subprocess.run(["unshare", "-Urm", "nice", "bash", "-c", s + "echo OK"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
        out = r.stdout.decode("utf-8", "replace")
        if "NOBUILD" in out:
            return "nobuild", ""
        try:
            lost = sorted(STABLE - set(json.load(open(d + "/o.json"))["passed"]))
        except OSError:
            return "error", out[-500:]
        if lost:
            return "tests", lost[0]
        pids = next(c for r_, c in PLAN if re.search(r_, p))
        notes = []
        for pid in pids:
            s2 = s.split("timeout 600 bash")[0] + "cd /verif; timeout 880 python3 checks/run.py %s quick > %s/c 2>&1; echo RC=$?; head -c 400 %s/c" % (pid, d, d)
            r = subprocess.run(["unshare", "-Urm", "nice", "bash", "-c", s2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
            out = r.stdout.decode("utf-8", "replace")
            if "RC=1" in out:
                return "caught", pid + (" (after %s)" % notes if notes else "")
            if "RC=0" not in out:
                notes.append(pid + " no answer " + out[-300:])
        return "SURVIVED", str(pids) + str(notes)
    except Exception as e:
        return "error", repr(e)[:300]
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", d])
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    snap, outf, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    ms = mutants(snap + "/repo", random.Random(seed), count, sys.argv[5] if len(sys.argv) > 5 else ".")
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            r = json.loads(l); done.add((r["f"], r["i"], r["new"]))
    ms = [m for m in ms if (m[0], m[1], m[3]) not in done]
    print(len(ms), "to do", flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("WORKERS", "2"))) as ex, open(outf, "a") as o:
        fs = {ex.submit(run, snap, m): m for m in ms}
        for f in concurrent.futures.as_completed(fs):
            m = fs[f]
            a, b = f.result()
            o.write(json.dumps(dict(f=m[0], i=m[1], old=m[2].strip(), new=m[3].strip(), r=a, by=b)) + "\n"); o.flush()
