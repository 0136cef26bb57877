"""Helper for writing planted bugs: seed(id, property, [(file, old, new)], demo, needs, breaks, kind)"""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CPP = r'''#!/bin/bash
# Compiles demo.cpp against the build in /repo/_build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
r=/repo; b=/repo/_build
inc="-isystem /usr/include/hdf5/serial -isystem /usr/include/gdal -I$r/source/shared/include -I$b/source/shared/include"
lib=""
for m in hl cxx gdal hdf5; do
  inc="$inc -I$r/source/data_model/$m/include -I$b/source/data_model/$m/include"
done
for l in hl/liblue_data_model_hl cxx/liblue_data_model gdal/liblue_gdal hdf5/liblue_hdf5; do
  lib="$lib $b/source/data_model/$l.so -Wl,-rpath,$(dirname $b/source/data_model/$l.so)"
done
inc="$inc -I$r/source/quality_assurance/cxx/include -I$b/source/quality_assurance/cxx/include"
/usr/bin/g++ -std=c++23 -DH5_USE_110_API -w $inc "$here/demo.cpp" -o "$tmp/demo" $lib \
  $b/source/quality_assurance/cxx/liblue_qa.a -lhdf5_serial -lgdal || exit 3
cd "$tmp" && ./demo
'''
PY = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$(ls -d /repo/_build/lib/python3*) /opt/lue-venv/bin/python3 "$here/demo.py"
'''
PRE = r'''#include "lue/data_model.hpp"
#include "lue/navigate.hpp"
#include "lue/validate.hpp"
#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <vector>
using namespace lue;
namespace dm = lue::data_model;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
template<typename F> bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }
template<typename T> hdf5::Datatype nat() { return hdf5::Datatype{hdf5::NativeDatatypeTraits<T>::type_id()}; }
'''


def seed(id, prop, edits, demo, needs, breaks, kind="cpp", pre=PRE):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    tmp = tempfile.mkdtemp()
    files = {}
    for f, old, new in edits:
        text = files.get(f) or open("/repo/" + f).read()
        assert text.count(old) == 1, (id, f, text.count(old), old)
        files[f] = text.replace(old, new)
    for f, text in sorted(files.items()):
        for side, t in (("a", open("/repo/" + f).read()), ("b", text)):
            p = os.path.join(tmp, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        diff += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    if kind == "cpp":
        open(d + "/demo.sh", "w").write(CPP)
        open(d + "/demo.cpp", "w").write(pre + demo)
    else:
        open(d + "/demo.sh", "w").write(PY)
        open(d + "/demo.py", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
