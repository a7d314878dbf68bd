import json
import os
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import runner

prop, entry, f = sys.argv[1:4]
for u in json.load(open(os.path.join(runner.VERIF, "props.json")))[prop]["units"]:
    src, nsrc, opts, notes, entries = runner.parse_harness(u["h"])
    if entry not in entries:
        continue
    d = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        exe = build.compile_native(["harness/" + u["h"], "rt/native.cpp"] + src + [x for x in nsrc + runner.BASE_N if x not in src], d + "/n", d + "/exe")
        g = d + "/in"
        open(g, "w").write("".join(l for l in open(f) if l.startswith("IN ")))
        rc, out, err = runner.native(exe, [entry, "replay", g], 120)
        print(out + err)
        print("reproduced" if runner.is_failure(rc, out) else "not reproduced")
    finally:
        shutil.rmtree(d, ignore_errors=True)
