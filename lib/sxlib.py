"""Shared machinery of the checks: builds /repo's current tree to bitcode / native code, runs symx, replays counterexamples."""
import os, sys, re, json, subprocess, hashlib, shutil, time, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CXY_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, ".build"))
ENG = os.path.join(VERIF, "engine")
CLANG, CLANGXX, LINK = "clang-18", "clang++-18", "llvm-link-18"
BCFLAGS = ("-O1 -fno-builtin -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks -fno-vectorize -fno-slp-vectorize "
           "-fno-unroll-loops -fno-pic -fno-pie -fno-stack-protector -D__NO_CTYPE -U_FORTIFY_SOURCE -gline-tables-only -w -emit-llvm -c -std=gnu11").split()
NATFLAGS = "-O0 -g1 -fPIC -w -fwrapv -fno-strict-aliasing -std=gnu11".split()
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NJ = int(os.environ.get("SX_JOBS", "8"))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    p = subprocess.run(cmd, **kw)
    return p.returncode, (p.stdout or b"").decode(errors="replace")


def must(cmd, what, **kw):
    rc, out = sh(cmd, **kw)
    if rc:
        raise CheckError("%s failed (%d): %s\n%s" % (what, rc, (" ".join(cmd) if isinstance(cmd, list) else cmd)[:300], out[-3000:]))
    return out


def pmap(fn, xs):
    with ThreadPoolExecutor(NJ) as ex:
        return list(ex.map(fn, xs))


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


# ------------------------------------------------------------------ engine
def ensure_engine():
    d = os.path.join(BUILD, "engine")
    key = sha(*[read(p) for p in sorted(glob.glob(ENG + "/*.*") + glob.glob(ENG + "/rt/*"))])
    st = os.path.join(d, "stamp")
    if os.path.exists(st) and read(st).decode() == key:
        return d
    os.makedirs(d, exist_ok=True)
    must(["bash", os.path.join(ENG, "build.sh"), d], "engine build")
    must([CLANG] + BCFLAGS + [os.path.join(ENG, "rt", "sxlibc.c"), "-o", os.path.join(d, "sxlibc.bc")], "sxlibc")
    with open(st, "w") as f:
        f.write(key)
    return d


# ------------------------------------------------------------------ the compiler under test
def _tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h", ".in", ".cxy", ".txt")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + hashlib.sha256(read(p)).digest())
    h.update(read(os.path.join(REPO, "CMakeLists.txt")))
    return h.hexdigest()[:16]


_th = []


def _tree_hash_cached():
    if not _th:
        _th.append(_tree_hash())
    return _th[0]


def src_hash():
    return read(os.path.join(VERIF, "lib", "stub_import.c"))


def cmake_sources():
    t = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    t = re.sub(r"#[^\n]*", "", t)
    s = []
    for m in re.finditer(r"(src/cxy/[\w/.-]+\.c|src/3rdParty/(?:cJSON\.c|toml/toml\.c))\b(?!pp)", t):
        if m.group(1) not in s:
            s.append(m.group(1))
    return [x for x in s if os.path.exists(os.path.join(REPO, x))]


def gen_dir():
    """configured headers and the embedded builtins source, generated from the current tree."""
    d = os.path.join(BUILD, "gen-" + sha(_tree_hash_cached(), REPO))
    if os.path.exists(d + "/ok"):
        return d
    inc = d + "/generated/src"
    os.makedirs(inc, exist_ok=True)
    mp = d + "/mp/msgpack"
    os.makedirs(mp, exist_ok=True)
    src = os.path.join(REPO, "src/3rdParty")
    for n in ("sysdep.h", "pack_template.h"):
        t = read("%s/msgpack/cmake/%s.in" % (src, n)).decode()
        t = t.replace("@MSGPACK_ENDIAN_BIG_BYTE@", "0").replace("@MSGPACK_ENDIAN_LITTLE_BYTE@", "1")
        open(mp + "/" + n, "w").write(t)
    os.makedirs(d + "/yaml", exist_ok=True)
    open(d + "/yaml/config.h", "w").write('#define YAML_VERSION_MAJOR 0\n#define YAML_VERSION_MINOR 2\n#define YAML_VERSION_PATCH 5\n#define YAML_VERSION_STRING "0.2.5"\n')
    am = d + "/amalgamate"
    must([CLANG] + NATFLAGS + ["-D_GNU_SOURCE", "-DNO_EXEC_UTIL", "-I" + REPO + "/src/cxy", "-o", am, REPO + "/src/tools/amalgamate.c", REPO + "/src/cxy/core/utils.c"], "amalgamate")
    must([am, inc, "builtins", "BUILTINS", "src/cxy/runtime/builtins.cxy"], "amalgamate run", cwd=REPO)
    open(d + "/ok", "w").close()
    return d


def cxy_incs():
    g = gen_dir()
    s = REPO + "/src/3rdParty"
    return ["-DCXY_VERSION=\"0.1.0\"", "-DYAML_DECLARE_STATIC", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-I" + REPO + "/src/cxy", "-I" + s, "-I" + g + "/generated", "-I" + s + "/msgpack/include", "-I" + g + "/mp", "-I" + g + "/mp/msgpack", "-I" + s + "/libyaml/include", "-I" + g + "/yaml"]


def cxy_units(main=True, lib3=True):
    """(label, path) of every C file of the compiler."""
    r = [(x, os.path.join(REPO, x)) for x in cmake_sources()]
    if not main:
        r = [x for x in r if not x[0].endswith("driver/main.c")]
    g = gen_dir()
    r.append(("builtins", g + "/generated/src/builtins.c"))
    if lib3:
        for p in sorted(glob.glob(REPO + "/src/3rdParty/msgpack/src/*.c") + glob.glob(REPO + "/src/3rdParty/libyaml/src/*.c")):
            r.append((os.path.relpath(p, REPO), p))
    r.append(("stub_import", os.path.join(VERIF, "lib", "stub_import.c")))
    return r


_deps_cache = {}


def compile_one(path, flags, ext, tag=""):
    """compile with a content-addressed cache keyed on the preprocessed text."""
    mk = (path, tuple(flags), ext)
    if mk in _deps_cache:
        return _deps_cache[mk]
    idx = os.path.join(BUILD, "idx", sha(path, read(path), " ".join(flags), ext, src_hash(), _tree_hash_cached()))
    if os.path.exists(idx):
        out = read(idx).decode()
        if os.path.exists(out):
            _deps_cache[mk] = out
            return out
    cmd = [CLANG] + flags + cxy_incs()
    pre = subprocess.run([CLANG] + [f for f in flags if f not in ("-c", "-emit-llvm")] + cxy_incs() + ["-E", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise CheckError("the tree does not compile: %s\n%s" % (path, pre.stderr.decode(errors="replace")[-2000:]))
    k = sha(pre.stdout, " ".join(flags))
    out = os.path.join(BUILD, "obj", k + ext)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        rc, o = sh(cmd + [path, "-o", tmp])
        if rc:
            raise CheckError("the tree does not compile: %s\n%s" % (path, o[-3000:]))
        os.rename(tmp, out)
    os.makedirs(os.path.dirname(idx), exist_ok=True)
    with open(idx + ".%d.%d" % (os.getpid(), threading.get_ident()), "w") as f:
        f.write(out)
    os.rename(f.name, idx)
    _deps_cache[mk] = out
    return out


def bc_files(paths, extra=()):
    _tree_hash_cached(), gen_dir()
    return pmap(lambda p: compile_one(p, BCFLAGS + list(extra), ".bc"), paths)


def obj_files(paths, san=True, extra=()):
    _tree_hash_cached(), gen_dir()
    return pmap(lambda p: compile_one(p, NATFLAGS + (ASAN if san else []) + ["-c"] + list(extra), ".o"), paths)


def core_paths(names):
    return [os.path.join(REPO, "src/cxy", n) for n in names]


def native_cxy():
    """the compiler, built natively from the current tree (C importer stubbed out)."""
    objs = obj_files([p for _, p in cxy_units()], san=False)
    k = sha(*objs)
    out = os.path.join(BUILD, "cxy-" + k, "cxy")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        must([CLANG, "-o", out + ".tmp"] + objs + ["-lm"], "cxy link")
        os.rename(out + ".tmp", out)
    return out


LLVM = "/usr/lib/llvm-18"


def native_cxy_imp():
    """the compiler with its C header importer (C++, libclang), built natively from the current tree."""
    objs = obj_files([p for l, p in cxy_units() if l != "stub_import"], san=False)
    cpps = sorted(glob.glob(REPO + "/src/cxy/driver/c-import/*.cpp"))
    flags = ["-O0", "-std=gnu++20", "-w", "-fPIC", "-fno-rtti", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + LLVM + "/include"] + cxy_incs()

    def one(p):
        out = os.path.join(BUILD, "obj", sha(p, read(p), _tree_hash_cached(), REPO, " ".join(flags)) + ".o")
        if not os.path.exists(out):
            must([CLANGXX] + flags + ["-c", p, "-o", out + ".tmp%d" % os.getpid()], "c-import")
            os.rename(out + ".tmp%d" % os.getpid(), out)
        return out
    objs = objs + pmap(one, cpps)
    out = os.path.join(BUILD, "cxyi-" + sha(*objs), "cxy")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        libs = [LLVM + "/lib/libclang%s.a" % n for n in "Frontend Driver Serialization Parse Sema APINotes Edit Analysis ASTMatchers AST Lex Basic Support".split()]
        must([CLANGXX, "-o", out + ".tmp"] + objs + ["-Wl,-rpath," + LLVM + "/lib", "-Wl,--start-group"] + libs + ["-Wl,--end-group", LLVM + "/lib/libLLVM.so.1", "-lm"], "cxy link with the importer")
        os.rename(out + ".tmp", out)
    return out


def cxy_to_c(src, workdir, args=(), stdlib=True, timeout=60, mm=False, test=False, imp=False):
    """run the compiler under test on a .cxy file; returns (rc, log, path of app.c)."""
    cxy = native_cxy_imp() if imp else native_cxy()
    os.makedirs(workdir, exist_ok=True)
    fake = os.path.join(workdir, "fakebin")
    os.makedirs(fake, exist_ok=True)
    for n in ("clang", "cc", "gcc", "clang-18"):
        p = os.path.join(fake, n)
        with open(p, "w") as f:
            f.write("#!/bin/sh\n[ \"$1\" = -E ] && exec /usr/bin/%s \"$@\"\n: > app; chmod +x app; exit 0\n" % n)
        os.chmod(p, 0o755)
    env = dict(os.environ)
    env["PATH"] = fake + ":" + env.get("PATH", "")
    for v in ("CXY_OS", "CXY_ROOT", "CXY_STDLIB_DIR"):
        env.pop(v, None)
    appc = os.path.join(workdir, "app.c")
    if os.path.exists(appc):
        os.unlink(appc)
    cmd = ["setarch", "x86_64", "-R", cxy, "test" if test else "build", "--no-progress", "--no-color"] + (["--stdlib", REPO + "/src/cxy"] if stdlib else []) + (["--with-mm"] if mm else []) + list(args) + [src]
    try:
        p = subprocess.run(cmd, cwd=workdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    return rc, out, appc if os.path.exists(appc) else None


# ------------------------------------------------------------------ units
class Unit:
    """One symbolic-execution harness.
    name, bc: bitcode files; nat: native objects / sources for the replay; opts: engine options; reach: labels that must be hit."""

    def __init__(self, name, bc, nat, entry="sx_harness", opts=(), reach=(), time_s=120, bounds="", natflags=(), env=None, min_asserts=1, replay_timeout=20, depth_note=""):
        self.__dict__.update(locals())


def run_unit(u, work):
    """returns dict(result=..., violations=[...], native=...)"""
    eng = ensure_engine()
    d = os.path.join(work, u.name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    allbc = os.path.join(d, "all.bc")
    must([LINK, "-o", allbc] + list(u.bc) + [os.path.join(eng, "sxlibc.bc")], "bitcode link of " + u.name)
    t0 = time.time()
    cmd = ["setarch", "x86_64", "-R", os.path.join(eng, "symx"), "-o", d, "-entry", u.entry, "-j", str(NJ), "-t", str(u.time_s)] + [str(x) for x in u.opts] + [allbc]
    try:
        rc, out = sh(cmd, timeout=u.time_s + 120)
    except subprocess.TimeoutExpired:
        raise CheckError("symx did not stop on " + u.name)
    rj = os.path.join(d, "result.json")
    if not os.path.exists(rj):
        raise CheckError("symx failed on %s (rc %d): %s" % (u.name, rc, out[-2000:]))
    with open(rj) as f:
        r = json.load(f)
    r["unit"], r["bounds"], r["symx_wall_s"] = u.name, u.bounds, round(time.time() - t0, 2)
    r["log"] = out[-2000:]
    if os.environ.get("SX_DEBUG"): print(out)
    if not os.environ.get("SX_KEEP"):
        os.unlink(allbc)
    seen, viol = set(), []
    for v in r["violations"]:
        k = (v["kind"], v["msg"], v["loc"].split(" < ")[0])
        if k not in seen:
            seen.add(k)
            viol.append(v)
    r["violations"] = viol
    r["dir"] = d
    return r


def native_exe(u, work):
    d = os.path.join(work, u.name)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "replay")
    if not os.path.exists(exe):
        must([CLANG] + NATFLAGS + ASAN + ["-I" + ENG + "/rt", "-o", exe] + list(u.natflags) + list(u.nat) + [ENG + "/rt/sxnative.c", "-lm", "-lpthread"] + [], "native replay build of " + u.name)
    return exe


def native_run(exe, case, timeout, env=None):
    e = dict(os.environ)
    e.update({"SX_REPLAY": case + ".bin", "SX_OBS": case + ".nobs", "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0", "LC_ALL": "C"})
    e.update(env or {})
    wd = os.path.dirname(exe)
    try:
        p = subprocess.run([exe], env=e, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stderr.decode(errors="replace")[-3000:]
    except subprocess.TimeoutExpired:
        return "timeout", "no termination within %d s" % timeout


def obs_of(p):
    try:
        return [l.strip() for l in open(p, errors="replace") if l.startswith("obs ")]
    except OSError:
        return []


class BuildFailure:
    """a program the compiler under test must accept was rejected / crashed it: a violation found while building a unit."""

    def __init__(self, name, msg, case, log):
        self.name, self.msg, self.case, self.log = name, msg, case, log


PRELUDE = """extern func sx_u8(n: string): u8
extern func sx_u16(n: string): u16
extern func sx_u32(n: string): u32
extern func sx_u64(n: string): u64
extern func sx_i32(n: string): i32
extern func sx_i64(n: string): i64
extern func sx_choice_(n: u32, s: string): u32
extern func sx_assume(c: i32): void
extern func sx_assert(c: i32, n: string): void
extern func sx_reach(n: string): void
extern func sx_observe(n: string, v: u64): void
"""
HPRE = """#include "sx.h"
#include <string.h>
#include <stdlib.h>
"""


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)
    return p


def cxy_unit(name, src, work, harness=None, mm=False, reach=(), time_s=120, opts=(), bounds="", min_asserts=1, stdlib=True, env=None, natives=(), cargs=(), replay_timeout=20, imp=False, adefs=(), natopts=(), bcopts=()):
    """compile a .cxy program with the compiler under test and make a unit of the generated C."""
    d = os.path.join(work, name + ".cc")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".cxy")
    with open(p, "w") as f:
        imports = [l for l in src.split("\n") if l.startswith("import ")]  # they come first
        f.write("".join(l + "\n" for l in imports) + PRELUDE + "\n".join(l for l in src.split("\n") if not l.startswith("import ")))
    if harness and "\n" in harness:
        harness = write(os.path.join(d, "harness.c"), HPRE + harness)
    rc, log, appc = cxy_to_c(p, d, mm=mm, stdlib=stdlib, args=cargs, imp=imp)
    if rc or not appc:
        return BuildFailure(name, "the compiler rejects (or crashes on) a valid program, exit %s" % rc, p[:-4], log)
    cflags = ["-Dmain=cxy_main", "-DCXY_SX=1"] + list(adefs)
    inc = ["-I" + ENG + "/rt", "-I" + REPO + "/src/cxy/stdlib"]
    bc = os.path.join(d, "app.bc")
    rc, out = sh([CLANG] + BCFLAGS + list(bcopts) + ["-std=gnu17"] + cflags + inc + [appc, "-o", bc])
    if rc:
        return BuildFailure(name, "generated C does not compile", p[:-4], out)
    srcs = [os.path.join(VERIF, "lib", "cxymain.c")] + ([harness] if harness else [])
    bcs, nobj = [bc], []
    for i, s in enumerate(srcs):
        b = os.path.join(d, "h%d.bc" % i)
        must([CLANG] + BCFLAGS + inc + [s, "-o", b], "harness " + s)
        bcs.append(b)
    for i, s in enumerate(natives):  # C files of the tree, with the same renamings as the program
        b, o = os.path.join(d, "n%d.bc" % i), os.path.join(d, "n%d.o" % i)
        must([CLANG] + BCFLAGS + ["-std=gnu17"] + list(adefs) + inc + [s, "-o", b], "native part " + s)
        must([CLANG] + NATFLAGS + ASAN + list(natopts) + ["-std=gnu17"] + list(adefs) + inc + ["-c", s, "-o", o], "native part " + s)
        bcs.append(b)
        nobj.append(o)
    o = os.path.join(d, "app.o")
    must([CLANG] + NATFLAGS + ASAN + list(natopts) + ["-std=gnu17"] + cflags + inc + ["-c", appc, "-o", o], "native app.c")
    return Unit(name, bcs, [o] + nobj + srcs, opts=opts, reach=reach, time_s=time_s, bounds=bounds, min_asserts=min_asserts, env=env, natflags=["-I" + REPO + "/src/cxy/stdlib"], replay_timeout=replay_timeout)


def comp_parts():
    """every C file of the compiler except the command-line entry point."""
    return [p for _, p in cxy_units(main=False)]


def c_unit(name, harness, work, parts=None, extra=(), reach=(), time_s=120, opts=(), bounds="", min_asserts=1, defs=(), replay_timeout=20, env=None):
    """a C harness against real C files of the tree (parts: list of absolute paths; default: the whole compiler)."""
    parts = comp_parts() if parts is None else parts
    d = os.path.join(work, name + ".cc")
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + ENG + "/rt"] + cxy_incs() + list(defs)
    hb = os.path.join(d, "h.bc")
    must([CLANG] + BCFLAGS + inc + [harness, "-o", hb], "harness " + harness)
    ho = os.path.join(d, "h.o")
    must([CLANG] + NATFLAGS + ASAN + inc + ["-c", harness, "-o", ho], "native harness " + harness)
    bcs, objs = bc_files(parts), obj_files(parts)
    k = sha(*objs)
    lib = os.path.join(BUILD, "obj", "lib" + k + ".so")
    if not os.path.exists(lib):
        must([CLANG] + ASAN + ["-shared", "-o", lib + ".tmp"] + objs + ["-lm"], "native library")
        os.rename(lib + ".tmp", lib)
    k = sha(*bcs)
    lbc = os.path.join(BUILD, "obj", "lib" + k + ".bc")
    if not os.path.exists(lbc):
        must([LINK, "-o", lbc + ".tmp"] + bcs, "bitcode library")
        os.rename(lbc + ".tmp", lbc)
    return Unit(name, [hb, lbc], [ho, lib, "-Wl,-rpath," + os.path.dirname(lib)], opts=opts, reach=reach, time_s=time_s, bounds=bounds, min_asserts=min_asserts, replay_timeout=replay_timeout, env=env)


def cases_unit(name, work, cases, pre="", cpre="", what="a case evaluates to its meaning", params=("u64", "u64", "u64"), ret="u64", main_pre="", mm=False, time_s=300, bounds="", opts=("-path-steps", "30000000"), per=400, **kw):
    """cases: list of (cxy function body, C reference body[, C precondition]); the bodies see a, b, c (as many as params).
    Each case is executed for all argument values satisfying its precondition, and must return what the reference returns."""
    CT = {"u64": "uint64_t", "i64": "int64_t", "u32": "uint32_t", "i32": "int32_t", "u16": "uint16_t", "i16": "int16_t", "u8": "uint8_t", "i8": "int8_t"}
    vs = "abcdefgh"[: len(params)]
    cx = lambda t, body: "{ %s }" % body if "return" in body else "=> " + body
    ps = ", ".join("%s: %s" % x for x in zip(vs, params))
    cps = ", ".join("%s %s" % (CT[t], v) for v, t in zip(vs, params))
    av = ", ".join(vs)
    src = pre + "\nextern func ok_(k: u32, %s): i32\nextern func chk_(k: u32, got: %s, %s): void\n" % (ps, ret, ps)
    src += "".join("func zz%d(%s): %s %s\n" % (k, ps, ret, cx(ret, c[0])) for k, c in enumerate(cases))
    # nested dispatch keeps the paths short
    src += "func run(k: u32, %s): %s {\n" % (ps, ret)
    for k in range(len(cases)):
        src += "  if (k == %d) { return zz%d(%s) }\n" % (k, k, av)
    src += "  return 0\n}\n"
    src += "func main() {\n  %s\n  const k = sx_choice_(%d, \"case\");\n" % (main_pre, len(cases))
    for v, t in zip(vs, params):
        src += "  const %s = sx_%s(\"%s\");\n" % (v, {"u64": "u64", "i64": "i64", "u32": "u32", "i32": "i32", "u16": "u16", "u8": "u8"}[t], v)
    src += "  if (ok_(k, %s) == 0) { return 0 }\n  chk_(k, run(k, %s), %s);\n  sx_reach(\"case\");\n  return 0\n}\n" % (av, av, av)
    h = cpre + "\n"
    for k, c in enumerate(cases):
        h += "static %s w%d(%s) { %s }\n" % (CT[ret], k, cps, c[1] if "return" in c[1] else "return %s;" % c[1])
        h += "static int o%d(%s) { return %s; }\n" % (k, cps, c[2] if len(c) > 2 and c[2] else "1")
    h += "static const struct { %s (*w)(%s); int (*o)(%s); const char *m; } TAB[] = {\n" % (CT[ret], cps, cps)
    for k, c in enumerate(cases):
        m = " ".join((c[3] if len(c) > 3 else c[0]).split())[:150].replace("\\", "\\\\").replace('"', '\\"')
        h += "{w%d, o%d, \"%s: case %d: %s\"},\n" % (k, k, what, k, m)
    h += "};\nint ok_(uint32_t k, %s) { return TAB[k].o(%s); }\nvoid chk_(uint32_t k, %s got, %s) { sx_assert(got == TAB[k].w(%s), TAB[k].m); }\n" % (cps, av, CT[ret], cps, av)
    return cxy_unit(name, src, work, harness=h, mm=mm, reach=["case"], time_s=time_s, bounds=bounds or "%d cases" % len(cases), opts=opts, **kw)
