#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification: TLC model checking, generated behaviours replayed in the real code, recorded traces validated by TLC"
NOTE = {
    "M": "The specification LueData.tla is checked exhaustively by TLC in bounded instances, random behaviours generated from it "
         "are replayed through the public C++ API, and every observation (full projection through live and reopened handles) is "
         "validated against it by TLC. Assurance is bounded by the number and length of behaviours and the drivers' value pools; "
         "HDF5 and the driver's projection are trusted.",
    "R": "As for the data model, with LueViews.tla and LueCells.tla: all observations of raster views and layers are validated against the specification.",
    "H": "Behaviours generated from Hdf5*.tla are replayed through the public API of lue_hdf5 and every recorded outcome is validated "
         "by TLC; the HDF5 C library, used to observe reference counts independently, is trusted.",
    "G": "Inputs and behaviours generated from LueBlocks.tla, LueCompare.tla and LueRasters.tla are given to the real code, and every recorded result is validated against them by TLC; GDAL itself is trusted.",
    "Y": "Behaviours generated from the specification are replayed through the Python API, results validated by TLC; for indexing the "
         "specification of NumPy semantics is validated against NumPy in the same run.",
    "Q": "Behaviours and inputs are generated from the specification, replayed in the real classes, recorded results validated by TLC.",
}
import sys
sys.path.insert(0, os.path.join(ROOT, "lib"))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = [l.split()[0] for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "hooks": {"guard": "LUE_VERIF", "enable": "no hooks are needed: checks observe the public API"},
    "checks": [dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i,
                    thorough_cmd="python3 checks/run.py %s thorough" % i,
                    technique=TECH, level="model_checking", level_note=NOTE[i[0]]) for i in ids if i in claimed],
    "not_applicable": [dict(property=i, reason="check under construction") for i in ids if i not in claimed],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
