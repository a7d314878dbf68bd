"""Compile /repo sources and harnesses: to LLVM IR for the verifier, natively for replay."""
import os
import re
import subprocess
import concurrent.futures as cf

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"
INC = [
    "-std=c++17", "-DNDEBUG", "-DANTLR4CPP_STATIC=1", "-DPARSER_LIBRARY_STATIC_DEFINE=1",
    "-include", "/opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h",
    f"-I{VERIF}/include",
    f"-I{REPO}/parser_library/include", f"-I{REPO}/parser_library/src", f"-I{REPO}/language_server/src",
    f"-I{REPO}/utils/include",
    "-I/opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/src",
    "-isystem", "/usr/include/antlr4-runtime", "-isystem", "/opt/vp/deps/json/include", "-w",
    "-fno-access-control",
]
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-threadsafe-statics", "-S", "-emit-llvm", f"-I{VERIF}/include/ir"]


class BuildError(Exception):
    pass


def _run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(what + "\n" + "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:1500] + "\n" + r.stderr[-2000:])


def src_path(s):
    if s.startswith("/"):
        return s
    if s.startswith("harness/") or s.startswith("rt/"):
        return os.path.join(VERIF, s)
    return os.path.join(REPO, s)


def compile_ir(srcs, out, extra=()):
    os.makedirs(out, exist_ok=True)

    def one(s):
        p = src_path(s)
        o = os.path.join(out, s.replace("/", "_") + ".ll")
        _run([CLANG] + INC + IRFLAGS + list(extra) + [p, "-o", o], "compiling " + s)
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


def compile_native(srcs, out, exe, extra=(), san=True):
    os.makedirs(out, exist_ok=True)
    fl = ["-O1", "-g0", "-DVP_NATIVE", "-ffunction-sections", "-fdata-sections"]
    if san:
        fl += ["-fsanitize=undefined,address", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,function", "-D_GLIBCXX_ASSERTIONS"]

    def one(s):
        p = src_path(s)
        o = os.path.join(out, s.replace("/", "_") + ".o")
        f = fl
        if os.path.getsize(p) > 120000:  # the instruction table: optimising it takes minutes
            f = ["-O0"] + [x for x in fl if x != "-O1" and not x.startswith("-fsanitize") and not x.startswith("-fno-sanitize")]
        _run([CLANG] + INC + f + list(extra) + ["-c", p, "-o", o], "compiling " + s)
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    base = [CLANG] + (["-fsanitize=undefined,address"] if san else []) + objs + ["-o", exe, "-Wl,--gc-sections", "-Wl,-z,muldefs", "-no-pie", "-lpthread"]
    r = subprocess.run(base + ["-Wl,--warn-unresolved-symbols", "-Wl,--no-demangle"], capture_output=True, text=True)
    und = sorted(set(re.findall(r"undefined reference to [`']([^'`]+)'", r.stderr)))
    if r.returncode and not und:
        raise BuildError("linking\n" + "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:1500] + "\n" + r.stderr[-2000:])
    if und:
        # whatever the contracts do not reach is bound to a trap that ends the run with "unresolved"
        stub = os.path.join(out, "unresolved.s")
        with open(stub, "w") as f:
            f.write(".section .note.GNU-stack,\"\",@progbits\n.text\n")
            for i, u in enumerate(und):
                f.write(f".globl \"{u}\"\n\"{u}\":\n  andq $-16,%rsp\n  leaq .Ln{i}(%rip),%rdi\n  call vp_unresolved\n  hlt\n  .zero 64\n")
            f.write(".section .rodata\n")
            for i, u in enumerate(und):
                f.write(f".Ln{i}: .string \"{u}\"\n")
        _run(base + [stub], "linking")
    return exe
