"""Development helper: creates seeded/<id>/ from a replacement in a scratch copy of /repo.
usage: mkseed.py ID  (reads /tmp/seedspec/ID.json: property, needs, what_it_breaks, edits[[file, old, new]...], demo source)"""
import json, os, subprocess, sys, shutil
V = "/verif"
DEMO_SH = '''#!/bin/bash
# builds the demonstration against the library built by build.sh (cwd is the repository)
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DANTLR4CPP_STATIC=1 -DPARSER_LIBRARY_STATIC_DEFINE=1 \\
  -include /opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h \\
  -I"$R/parser_library/include" -I"$R/parser_library/src" -I"$R/_build/generated_parser" -I"$R/_build/generated_parser/export" \\
  -I/opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/src -I"$R/utils/include" %s-isystem /usr/include/antlr4-runtime -isystem /opt/vp/deps/json/include \\
  "$D/demo.cpp" %s-o "$T/demo" "$R/_build/bin/libparser_library.a" /usr/lib/x86_64-linux-gnu/libantlr4-runtime.so "$R/_build/bin/libhlasm_utils.a" -lpthread || exit 3
timeout 60 "$T/demo"
'''
def main(id):
    sp = json.load(open(f"/tmp/seedspec/{id}.json"))
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir("/tmp/seedwt"):
        subprocess.run(["git", "clone", "-q", "/repo", "/tmp/seedwt"], check=True)
    assert not subprocess.run(["git", "-C", "/tmp/seedwt", "status", "--porcelain"], capture_output=True, text=True).stdout
    try:
        for f, o, n in sp["edits"]:
            p = "/tmp/seedwt/" + f
            s = open(p).read()
            assert s.count(o) == 1, (f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", "/tmp/seedwt", "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/tmp/seedwt", "checkout", "--", "."])
    open(d + "/demo.sh", "w").write(DEMO_SH % (sp.get("inc", ""), sp.get("src", "")))
    open(d + "/demo.cpp", "w").write(sp["demo"])
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
for i in sys.argv[1:]:
    main(i)
