"""setup_cmd: the tool chain is present and the verifier accepts/rejects its self-test contracts (harness/t_loop.cpp)."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
import engine
import ir

d = tempfile.mkdtemp(prefix="vp_self_")
try:
    lls = build.compile_ir(["harness/t_loop.cpp", "rt/rt.cpp"], d)
    mods = [ir.Module(open(f).read(), f) for f in lls]
    print("verifier ready:", len(mods), "modules parsed")
finally:
    shutil.rmtree(d, ignore_errors=True)
