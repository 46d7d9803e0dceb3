"""Bounded symbolic checking of the real LESS sources with CBMC.

An Instance is (implementation, parameter set, size overrides, harness): the
sources under /repo are compiled from scratch by goto-cc on every run, linked
with a harness, symbolically executed by CBMC and decided by its SAT back end.
Counterexamples are turned into concrete inputs, compiled natively with the
same sources and replayed; only what reproduces is reported."""
import os, sys, json, subprocess, time, shutil, tempfile, threading, hashlib, resource, signal, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
STUBS = os.path.join(VERIF, "stubs")
IMPLS = {
    "ref": os.path.join(REPO, "Reference_Implementation"),
    "opt": os.path.join(REPO, "Optimized_Implementation/avx2"),
}
PARAMS = {  # name -> (category, option)
    "1B": ("CATEGORY_1", "BALANCED"), "1I": ("CATEGORY_1", "INTERMEDIATE"),
    "1S": ("CATEGORY_1", "SHORT_SIG"), "3B": ("CATEGORY_3", "BALANCED"),
    "3S": ("CATEGORY_3", "SHORT_SIG"), "5B": ("CATEGORY_5", "BALANCED"),
    "5S": ("CATEGORY_5", "SHORT_SIG"),
}
ALL = list(PARAMS)
ONE_PER_CAT = ["1B", "3B", "5B"]

OK, BAD, UNK = "ok", "violated", "inconclusive"


class Instance:
    def __init__(self, name, harness, impl="ref", param="1B", ov=None, d=None,
                 remove=(), unwind=None, unwindset=None, mem=False, flags=(),
                 solver="cadical", timeout=300, memlimit_gb=5, what="", stubs=(),
                 bounds="", maxunwind=None, native_libs=(), conv=False, optional=False,
                 expect_unreached=(), only=None, fs=None, srcs=None, incs=None, xpath=None, objbits=None,
                 no_unwind_assert=False, slots=1, validate=False, hunwind=5000, grow=4,
                 engine="cbmc", qtimeout=60, impl2=None, harness2=None, extra_srcs=(), mod127=False, paths=0):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.ov = dict(ov or {})
        self.d = dict(d or {})

    def key(self):
        return f"{self.name}[{self.impl}/{self.param}]"


class Result:
    def __init__(self, inst):
        self.inst = inst
        self.status = UNK
        self.detail = ""
        self.props = 0
        self.failed = []
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.vars = self.clauses = 0
        self.vccs = 0
        self.steps = 0
        self.queries = 0
        self.functions = []
        self.replay = None
        self.values = None
        self.reached = []
        self.validated = 0
        self.note = ""
        self.unwind_used = None
        self.replay_txt = ""


def repo_sources(impl):
    d = os.path.join(IMPLS[impl], "lib")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))


def _limits(gb, secs):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * (1 << 30)),) * 2)
        resource.setrlimit(resource.RLIMIT_CPU, (int(secs) + 30,) * 2)
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, 1 << 30))
        except Exception:
            pass
    return f


_live = set()
_live_lock = threading.Lock()
STOP = threading.Event()
BUDGET_END = [None]


def kill_all():
    STOP.set()
    with _live_lock:
        ps = list(_live)
    for p in ps:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def run(cmd, timeout=120, gb=8, cwd=None, env=None, inp=None):
    """returns (rc, stdout, stderr); rc None on timeout"""
    if STOP.is_set():
        return None, "", "stopped"
    why = "timeout"
    if BUDGET_END[0] and BUDGET_END[0] - time.time() < timeout:
        timeout = max(1, BUDGET_END[0] - time.time())
        why = "budget"
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         preexec_fn=_limits(gb, timeout), text=True, errors="replace")
    with _live_lock:
        _live.add(p)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "stopped" if STOP.is_set() else why
    finally:
        with _live_lock:
            _live.discard(p)


_tok = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[{}]|\bstatic\s+const\s+\w+\s+\w+\s*=')


def fix_static_const(text):
    """CBMC's C front end rejects a block-scope 'static const T X = <non-literal>' (a GCC
    extension); inside function bodies such scalar constants become automatic ones."""
    depth = 0
    out = []
    last = 0
    for m in _tok.finditer(text):
        t = m.group(0)
        if t == "{":
            depth += 1
        elif t == "}":
            depth -= 1
        elif t.startswith("static") and depth > 0:
            out.append(text[last:m.start()])
            out.append(re.sub(r"^static\s+", "", t))
            last = m.end()
    out.append(text[last:])
    return "".join(out)


def goto_cc(src, obj, flags):
    i = obj + ".i"
    rc, out, err = run(["gcc", "-E", "-std=gnu11", "-w", "-D__CPROVER__", "-D__NO_CTYPE=1"] + flags + [src], 60)
    if rc != 0:
        raise RuntimeError(f"preprocessing {src}: {err[-2000:]}")
    with open(i, "w") as f:
        f.write(fix_static_const(out))
    rc, out, err = run(["goto-cc", "-c", "-w", "-o", obj, i], 120)
    if rc != 0:
        raise RuntimeError(f"goto-cc failed on {src}: {err[-2000:]}{out[-500:]}")


class Build:
    """compiles /repo's current sources; one cache per process run, keyed by configuration"""

    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.lock = threading.Lock()
        self.klocks = {}

    def _klock(self, k):
        with self.lock:
            return self.klocks.setdefault(k, threading.Lock())

    def cflags(self, inst, impl=None):
        cat, opt = PARAMS[inst.param]
        impl = impl or inst.impl
        fl = [f"-D{cat}=1", f"-D{opt}=1", "-DNDEBUG=1", "-I" + os.path.join(IMPLS[impl], "include")]
        fl += ["-I" + HARN]
        fl += [f"-DVC_IMPL_{impl.upper()}=1"]
        return fl

    def ovheader(self, inst, d, impl=None):
        path = os.path.join(d, "vc_override.h")
        with open(path, "w") as f:
            for k in inst.ov:
                f.write(f"#undef {k}\n#define {k} {inst.ov[k]}\n")
        return ["-include", os.path.join(IMPLS[impl or inst.impl], "include/parameters.h"), "-include", path]

    def goto_real(self, inst):
        """goto binary of the real sources (no harness), with removed bodies"""
        k = ("g", inst.impl, inst.param, tuple(sorted(inst.ov.items())), tuple(sorted(inst.remove)), tuple(sorted(inst.srcs or ())))
        with self._klock(k):
            if k in self.cache:
                return self.cache[k]
            d = os.path.join(self.work, hashlib.sha1(repr(k).encode()).hexdigest()[:16])
            os.makedirs(d, exist_ok=True)
            fl = self.cflags(inst) + self.ovheader(inst, d)
            fl = ["-I" + STUBS] + fl
            srcs = repo_sources(inst.impl)
            if inst.srcs:
                srcs = [s for s in srcs if os.path.basename(s) in inst.srcs]
            objs = []
            for s in srcs:
                o = os.path.join(d, os.path.basename(s) + ".gb")
                goto_cc(s, o, fl)
                objs.append(o)
            real = os.path.join(d, "real.gb")
            rc, out, err = run(["goto-cc", "-w", "-o", real] + objs, 120)
            if rc != 0:
                raise RuntimeError("goto-cc link failed: " + err[-2000:])
            if inst.remove:
                real2 = os.path.join(d, "real_cut.gb")
                cmd = ["goto-instrument"]
                for f in inst.remove:
                    cmd += ["--remove-function-body", f]
                rc, out, err = run(cmd + [real, real2], 120)
                if rc != 0:
                    raise RuntimeError("goto-instrument failed: " + (err + out)[-2000:])
                real = real2
            self.cache[k] = (real, fl)
            return self.cache[k]

    def goto(self, inst, d):
        real, fl = self.goto_real(inst)
        hs = [os.path.join(HARN, inst.harness)] + [os.path.join(HARN, s) for s in inst.stubs]
        out = os.path.join(d, "harness.gb")
        defs = [f"-D{k}={v}" for k, v in inst.d.items()]
        ho = []
        for h in hs:
            o1 = os.path.join(d, os.path.basename(h) + ".gb")
            goto_cc(h, o1, fl + defs)
            ho.append(o1)
        rc, o, e = run(["goto-cc", "-w", "-o", out] + ho + [real], 120)
        if rc != 0:
            raise RuntimeError("goto-cc harness failed: " + (e + o)[-3000:])
        return out

    # ---- LLVM bitcode of the same sources for the symbolic executor in symx/
    def clang_bc(self, src, out, flags):
        rc, o, e = run(["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-mavx2", "-std=gnu11", "-w", "-fno-builtin", "-g0",
                        "-emit-llvm", "-c", "-DVC_SYMX=1", "-o", out] + flags + [src], 120, gb=16)
        if rc != 0:
            raise RuntimeError(f"clang failed on {src}: {e[-2000:]}")

    def bc_real(self, inst, impl):
        k = ("bc", impl, inst.param, tuple(sorted(inst.ov.items())), tuple(sorted(inst.srcs or ())))
        with self._klock(k):
            if k in self.cache:
                return self.cache[k]
            d = os.path.join(self.work, hashlib.sha1(repr(k).encode()).hexdigest()[:16])
            os.makedirs(d, exist_ok=True)
            fl = self.cflags(inst, impl) + self.ovheader(inst, d, impl)
            srcs = repo_sources(impl)
            if inst.srcs:
                srcs = [s for s in srcs if os.path.basename(s) in inst.srcs]
            outs = []
            for s in srcs:
                o = os.path.join(d, os.path.basename(s) + ".bc")
                self.clang_bc(s, o, fl)
                outs.append(o)
            self.cache[k] = (outs, fl)
            return self.cache[k]

    def symx_cmd(self, inst, d):
        outs, fl = self.bc_real(inst, inst.impl)
        defs = [f"-D{k}={v}" for k, v in inst.d.items()]
        cmd = [symx_binary()]
        for h in [os.path.join(HARN, inst.harness)] + [os.path.join(HARN, s) for s in inst.stubs]:
            o = os.path.join(d, os.path.basename(h) + ".bc")
            self.clang_bc(h, o, fl + defs)
            cmd += ["--harness", o]
        for s in inst.extra_srcs:
            o = os.path.join(d, os.path.basename(s) + ".x.bc")
            self.clang_bc(s, o, fl + defs)
            cmd += ["--real", o]
        for o in outs:
            cmd += ["--real", o]
        if inst.impl2:
            outs2, fl2 = self.bc_real(inst, inst.impl2)
            if inst.harness2:
                o = os.path.join(d, "second.bc")
                self.clang_bc(os.path.join(HARN, inst.harness2), o, fl2 + defs)
                cmd += ["--realkeep", "b_=" + o]
            for o in outs2:
                cmd += ["--real", "b_=" + o]
        for f in inst.remove:
            cmd += ["--remove", f]
        return cmd + (["--mod127"] if inst.mod127 else []) + (["--paths", str(inst.paths)] if inst.paths else []) + ["--timeout", str(int(inst.timeout)), "--qtimeout", str(int(inst.qtimeout * 1000))]

    def native(self, inst, d, values_h, san, variant):
        """native build of the same sources + harness for replay"""
        if inst.impl2:
            return self.native2(inst, d, values_h, san, variant)
        fl = self.cflags(inst) + self.ovheader(inst, d)
        defs = [f"-D{k}={v}" for k, v in inst.d.items()]
        cc = ["gcc", "-w", "-g", "-O0", "-std=gnu11", "-mavx2", "-fno-builtin", "-fcommon"]
        if san:
            cc += ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift", "-fno-omit-frame-pointer"]
        if variant:
            cc += ["-ftrivial-auto-var-init=" + variant]
        objs = []
        srcs = repo_sources(inst.impl)
        if inst.srcs:
            srcs = [s for s in srcs if os.path.basename(s) in inst.srcs]
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + ".o")
            rc, out, err = run(cc + fl + ["-c", "-o", o, s], 120, gb=64)
            if rc != 0:
                raise RuntimeError("native build failed: " + err[-2000:])
            if inst.remove:
                cmd = ["objcopy"]
                for f in inst.remove:
                    cmd += ["--weaken-symbol=" + f]
                run(cmd + [o], 60)
            objs.append(o)
        hs = [os.path.join(HARN, inst.harness)] + [os.path.join(HARN, s) for s in inst.stubs] + list(inst.extra_srcs)
        exe = os.path.join(d, "replay")
        rc, out, err = run(cc + fl + defs + ["-DVC_NATIVE=1", f'-DVC_VALUES="{values_h}"', "-o", exe] + hs + objs +
                           list(inst.native_libs), 180, gb=64)
        if rc != 0:
            raise RuntimeError("native link failed: " + err[-3000:])
        return exe


    def native2(self, inst, d, values_h, san, variant):
        """two implementations in one program: the second one's symbols get the prefix b_"""
        cc = ["gcc", "-w", "-g", "-O0", "-std=gnu11", "-mavx2", "-fno-builtin", "-fcommon"]
        if san:
            cc += ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift", "-fno-omit-frame-pointer"]
        if variant:
            cc += ["-ftrivial-auto-var-init=" + variant]
        defs = [f"-D{k}={v}" for k, v in inst.d.items()]
        allobjs = []
        for impl, second in ((inst.impl, False), (inst.impl2, True)):
            fl = self.cflags(inst, impl) + self.ovheader(inst, d, impl)
            srcs = repo_sources(impl)
            if inst.srcs:
                srcs = [s for s in srcs if os.path.basename(s) in inst.srcs]
            objs = []
            if second and inst.harness2:
                srcs = srcs + [os.path.join(HARN, inst.harness2)]
            for s in srcs:
                o = os.path.join(d, impl + "_" + os.path.basename(s) + ".o")
                rc, out, err = run(cc + fl + defs + ["-DVC_NATIVE=1", "-c", "-o", o, s], 120, gb=1 << 20)
                if rc != 0:
                    raise RuntimeError("native build failed: " + err[-2000:])
                if inst.remove and not s.startswith(HARN):
                    run(["objcopy"] + ["--weaken-symbol=" + f for f in inst.remove] + [o], 60)
                objs.append(o)
            if second:
                syms = set()
                for o in objs:
                    rc, out, err = run(["nm", "-g", "--defined-only", o], 60)
                    syms |= {l.split()[-1] for l in out.splitlines() if l.strip()}
                syms -= set(inst.remove)
                syms |= set(inst.remove)
                m = os.path.join(d, "redefine.txt")
                with open(m, "w") as f:
                    for x in sorted(syms):
                        if not x.startswith(("vc_", "__asan", "__ubsan", "_GLOBAL", "__odr")):
                            f.write(f"{x} b_{x}\n")
                for o in objs:
                    run(["objcopy", "--redefine-syms=" + m, o], 60)
            allobjs += objs
        fl = self.cflags(inst, inst.impl) + self.ovheader(inst, d, inst.impl)
        hs = [os.path.join(HARN, inst.harness)] + [os.path.join(HARN, s) for s in inst.stubs]
        exe = os.path.join(d, "replay")
        rc, out, err = run(cc + fl + defs + ["-DVC_NATIVE=1", f'-DVC_VALUES="{values_h}"', "-o", exe] + hs + allobjs + list(inst.native_libs), 180, gb=1 << 20)
        if rc != 0:
            raise RuntimeError("native link failed: " + err[-3000:])
        return exe


SYMX_LOCK = threading.Lock()


def symx_binary():
    """the symbolic executor, built once from /verif/symx"""
    exe = os.path.join(VERIF, "symx", "build", "symx")
    with SYMX_LOCK:
        srcs = [os.path.join(VERIF, "symx", f) for f in os.listdir(os.path.join(VERIF, "symx")) if f.endswith((".cpp", ".h"))]
        if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(x) for x in srcs):
            rc, o, e = run(["bash", os.path.join(VERIF, "symx", "build.sh")], 600, gb=64)
            if rc != 0:
                raise RuntimeError("building symx failed: " + e[-1500:])
    return exe


def check_symx(inst, build, d, res):
    cmd = build.symx_cmd(inst, d)
    rc, out, err = run(cmd, inst.timeout + 60, gb=inst.memlimit_gb)
    if rc is None:
        res.detail = "timeout (%s)" % err
        return
    try:
        j = json.loads(out[out.index('{"status"'):])
    except Exception:
        res.detail = "no result (out of memory or crash): rc=%s %s" % (rc, (err or out)[-300:])
        return
    res.functions = [f for f in j["functions"]]
    res.queries, res.solver_s, res.steps, res.vars = j["queries"], j["solver_s"], j["steps"], j["terms"]
    res.props = res.vccs = sum(a["count"] for a in j["asserts"])
    res.symx = {k: j[k] for k in ("forks", "merges", "paths", "terms", "steps", "queries")}
    res.reached = [m for m, n in j["reach"].items() if n]
    if j["status"] == "unknown":
        res.detail = j["detail"]
        return
    if j["status"] == "violated":
        res.failed = [j["detail"]]
        val = {"raw": j["inputs"]}
        ok, txt = replay(inst, build, d, val, None)
        if ok:
            res.status, res.detail, res.values, res.replay_txt = BAD, j["detail"], val, txt
        else:
            res.detail = "counterexample did not reproduce natively: " + j["detail"] + " || " + txt[-1500:]
        return
    if not j["reach"]:
        res.detail = "harness has no reachability witness"
        return
    dead = [m for m, n in j["reach"].items() if not n and not any(u in m for u in inst.expect_unreached)]
    if dead:
        res.detail = "vacuous: witness not reachable: %s" % dead
        return
    res.status = OK
    if inst.validate:  # the solver's witness of the last reachability point, run on the real code
        vh = write_values(d, {"raw": j["inputs"]})
        try:
            exe = build.native(inst, d, vh, False, None)
            rc, o, e = run([exe], 60, gb=16, cwd=d)
            if rc == 0:
                res.validated += 1
            else:
                res.note = "witness run on the real code ended with rc=%s %s" % (rc, o[-200:])
        except Exception as ex:
            res.note = "native build for validation failed: " + str(ex)[-300:]


def write_values(d, val):
    vh = os.path.join(d, "vc_values.h")
    with open(vh, "w") as f:
        f.write(values_text(val))
    return vh


def values_text(val):
    if "raw" in val:
        return "#define VC_RAW 1\nstatic const unsigned char vc_raw[] = {" + ",".join(map(str, val["raw"] or [0])) + "};\nstruct vc_inputs vc_in;\n"
    return "struct vc_inputs vc_in = " + c_init(val) + ";\n"


def c_init(v):
    if "members" in v:
        return "{" + ",".join(f".{m['name']}={c_init(m['value'])}" for m in v["members"]
                              if not m["name"].startswith("$pad")) + "}"
    if "elements" in v:
        return "{" + ",".join(c_init(x["value"]) for x in v["elements"]) + "}"
    if v.get("name") == "unknown":
        return "0"
    b = v.get("binary")
    if b is not None and set(b) <= {"0", "1"}:
        n = int(b, 2)
        t = v.get("type", "")
        if v.get("name") == "boolean":
            return str(n)
        return (f"{n}ull" if n >= (1 << 31) else str(n))
    s = str(v.get("data", "0"))
    return "1" if s == "TRUE" else "0" if s == "FALSE" else re.sub(r"[^0-9\-]", "", s) or "0"


def extract_inputs(trace):
    """last whole-struct assignment of vc_in, then element updates are ignored (vc_in is read-only)"""
    best = None
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "vc_in" and "value" in s and \
           "members" in s["value"]:
            best = s["value"]
    return best


def loops_of(gb, inst):
    """loop ids of the program, and those that belong to the harness (constant trip counts)"""
    rc, o, e = run(["goto-instrument", "--show-loops", "--json-ui", gb], 120)
    mine, real = [], []
    try:
        for x in json.loads(o):
            for l in x.get("loops", []):
                f = l.get("sourceLocation", {}).get("file", "")
                (mine if f.startswith(HARN) or f.startswith(STUBS) or f.startswith("<builtin") else real).append(l["name"])
    except Exception:
        pass
    return mine, real


HINTS_FILE = os.path.join(VERIF, "lib", "unwind_hints.json")
try:
    HINTS = json.load(open(HINTS_FILE))
except Exception:
    HINTS = {}
LEARNED = {}


def cbmc_cmd(inst, gb, unwind, trace=False, prop=None, pre=False):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "9", "--drop-unused-functions", "--no-malloc-may-fail"]
    if not trace:
        cmd += ["--slice-formula"]
    if pre:
        cmd += ["--no-assertions", "--no-standard-checks", "--unwinding-assertions"] 
        cmd += ["--unwind", str(inst.unwind or 8), "--sat-solver", "cadical"] + list(inst.flags)
        if unwind:
            cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(unwind.items()))]
        return cmd
    if not inst.mem:
        cmd += ["--no-standard-checks"]
    if not inst.no_unwind_assert:
        cmd += ["--unwinding-assertions"]
    else:
        cmd += ["--no-unwinding-assertions"]
    cmd += ["--unwind", str(inst.unwind or 8)]
    if unwind:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(unwind.items()))]
    if inst.fs:
        cmd += ["--max-field-sensitivity-array-size", str(inst.fs)]
    if inst.objbits:
        cmd += ["--object-bits", str(inst.objbits)]
    if inst.solver == "cadical":
        cmd += ["--sat-solver", "cadical"]
    elif inst.solver == "minisat2":
        cmd += ["--sat-solver", "minisat2"]
    elif inst.solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    elif inst.solver == "z3":
        cmd += ["--z3"]
    cmd += list(inst.flags)
    if trace:
        cmd += ["--trace"]
    if prop:
        for p in prop:
            cmd += ["--property", p]
    return cmd


def parse(out):
    try:
        return json.loads(out)
    except Exception:
        i = out.rfind("\n]")
        try:
            return json.loads(out[: i + 2])
        except Exception:
            # truncated output: try to close the list
            try:
                return json.loads(out.rstrip().rstrip(",") + "]")
            except Exception:
                return None


def stats(res, js):
    for x in js:
        t = x.get("messageText", "")
        m = re.search(r"Runtime Solver: ([0-9.e+-]+)s", t)
        if m:
            res.solver_s += float(m.group(1)); res.queries += 1
        m = re.search(r"^(\d+) variables, (\d+) clauses", t)
        if m:
            res.vars = max(res.vars, int(m.group(1))); res.clauses = max(res.clauses, int(m.group(2)))
        m = re.search(r"size of program expression: (\d+) steps", t)
        if m:
            res.steps = max(res.steps, int(m.group(1)))
        m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            res.vccs = int(m.group(1))


def check_instance(inst, build, work, log):
    res = Result(inst)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="i_", dir=work)
    try:
        (check_symx if inst.engine == "symx" else _check)(inst, build, d, res)
    except Exception as ex:  # build problems etc.
        res.status = UNK
        res.detail = "error: " + str(ex)[-1500:]
    res.wall_s = time.time() - t0
    if res.status == OK:
        shutil.rmtree(d, ignore_errors=True)
    return res


def goto_functions(gb):
    rc, o, e = run(["goto-instrument", "--show-goto-functions", "--json-ui", gb], 120)
    try:
        js = json.loads(o)
        names = []
        for x in js:
            for f in x.get("functions", []):
                if f.get("isBodyAvailable") and not f.get("isInternal"):
                    names.append(f["name"])
        return names
    except Exception:
        return []


def _check(inst, build, d, res):
    gb = build.goto(inst, d)
    # functions that end up in the query: reachable from main
    rc, o, e = run(["goto-instrument", "--drop-unused-functions", gb, gb + ".r"], 120)
    if rc == 0:
        res.functions = goto_functions(gb + ".r")
    deadline = time.time() + inst.timeout
    mine, real = loops_of(gb, inst)
    cap = inst.maxunwind or 4096
    unwind = {l: inst.hunwind for l in mine}
    names = set(mine) | set(real)
    funcs = set(res.functions)
    hints = HINTS.get(inst.key(), {})
    hints = {l: n for l, n in hints.items() if l in names or l in funcs}
    import fnmatch
    for pat, n in (inst.unwindset or {}).items():
        for l in names | funcs:
            if l not in mine and fnmatch.fnmatch(l, pat):
                unwind[l] = n
    unwind.update(hints)
    pre = not hints and not inst.unwindset
    while True:
        left = max(5, deadline - time.time())
        rc, out, err = run(cbmc_cmd(inst, gb, unwind, pre=pre), left, gb=inst.memlimit_gb)
        if rc is None:
            res.detail = f"timeout after {inst.timeout}s ({err}{', finding loop bounds' if pre else ''})"
            return
        js = parse(out)
        if js is None:
            res.detail = "no result (out of memory or crash): rc=%s %s" % (rc, (err or out)[-300:])
            return
        stats(res, js)
        results = [r for x in js if "result" in x for r in x["result"]]
        if not results and not pre:
            msgs = " | ".join(x.get("messageText", "") for x in js if x.get("messageType") == "ERROR")
            res.detail = "no result: rc=%s %s" % (rc, msgs[-800:] or err[-300:])
            return
        unw = [r for r in results if r["status"] == "FAILURE" and (".unwind." in r["property"] or ".recursion" in r["property"])]
        if unw:
            over = []
            for u in unw:
                l = u["property"].replace(".unwind.", ".").replace(".recursion", "")
                n = unwind.get(l, inst.unwind or 8) * (2 if l in unwind else inst.grow)
                if n > cap:
                    over.append(u)
                    n = cap
                unwind[l] = n
                for x in names:      # file-local copies of the same inline function
                    if "$link" in x and re.sub(r"\$link\d+", "", x) == l:
                        unwind[x] = max(n, unwind.get(x, 0))
            if len(over) < len(unw):
                pre = True
                continue
            nonunw = [r for r in results if r["status"] == "FAILURE" and r not in unw and "VCREACH" not in r.get("description", "")]
            if not nonunw:
                res.detail = "unwinding bound not sufficient: %s" % [u["property"] for u in unw][:4]
                res.failed = [u["property"] for u in unw]
                _try_hang(inst, build, d, gb, unwind, unw[:2], res)
                return
        if pre:
            pre = False
            continue
        break
    LEARNED[inst.key()] = {l: n for l, n in unwind.items() if l not in mine}
    reach = [r for r in results if "VCREACH" in r.get("description", "")]
    res.props = len(results) - len(reach)
    res.unwind_used = dict(default=inst.unwind or 8, **{l: n for l, n in unwind.items() if l not in mine})
    bad = [r for r in results if r["status"] == "FAILURE" and "VCREACH" not in r.get("description", "") and r not in unw]
    odd = [r for r in results if r["status"] not in ("FAILURE", "SUCCESS")]
    res.reached = [r["description"] for r in reach if r["status"] == "FAILURE"]
    if not bad:
        if odd:
            res.detail = "undecided: " + odd[0]["status"]
            return
        if not reach:
            res.detail = "harness has no reachability witness"
            return
        dead = [r["description"] for r in reach if r["status"] != "FAILURE" and
                not any(u in r["description"] for u in inst.expect_unreached)]
        if dead:
            # assertions never reached: vacuous
            res.detail = "vacuous: witness not reachable: %s" % dead
            return
        res.status = OK
        if inst.validate:
            _validate(inst, build, d, gb, unwind, [r for r in reach if r["status"] == "FAILURE"], res)
        return
    res.failed = [r["property"] + ": " + r["description"] for r in bad]
    # counterexample -> concrete inputs -> native replay
    tries = 0
    notes = []
    for r in bad[:4]:
        tries += 1
        rc, out, err = run(cbmc_cmd(inst, gb, unwind, trace=True, prop=[r["property"]]),
                           max(60, deadline - time.time()) + 60, gb=inst.memlimit_gb + 4)
        js = parse(out) if rc is not None else None
        if js is None:
            notes.append("no trace for %s (%s)" % (r["property"], err[-100:]))
            continue
        stats(res, js)
        tr = [x for y in js if "result" in y for x in y["result"] if x["property"] == r["property"] and "trace" in x]
        if not tr:
            notes.append("no trace for " + r["property"])
            continue
        val = extract_inputs(tr[0]["trace"])
        if val is None:
            notes.append("no inputs in trace for " + r["property"])
            continue
        ok, txt = replay(inst, build, d, val, r)
        if ok:
            res.status = BAD
            res.detail = r["property"] + ": " + r["description"]
            res.values = val
            res.replay_txt = txt
            return
        notes.append(txt)
    res.detail = "counterexample did not reproduce natively: " + "; ".join(res.failed[:3]) + " || " + " / ".join(notes)[-1500:]


def _try_hang(inst, build, d, gb, unwind, unw, res):
    """a loop that runs past every bound: non-termination is confirmed by running the witness natively"""
    for u in unw:
        rc, out, err = run(cbmc_cmd(inst, gb, unwind, trace=True, prop=[u["property"]]), 240, gb=inst.memlimit_gb + 2)
        js = parse(out) if rc is not None else None
        if js is None:
            continue
        tr = [x for y in js if "result" in y for x in y["result"] if "trace" in x]
        val = extract_inputs(tr[0]["trace"]) if tr else None
        if val is None:
            continue
        ok, txt = replay(inst, build, d, val, u)
        if ok:
            res.status = BAD
            res.detail = "does not terminate or crashes: " + u["property"]
            res.values = val
            res.replay_txt = txt
            return


def _validate(inst, build, d, gb, unwind, reach, res):
    """encoding validation: the solver's witness for reaching the end of the harness is run on the
    real code; the real code must get there too, with every assertion holding"""
    for r in reach[-1:]:
        rc, out, err = run(cbmc_cmd(inst, gb, unwind, trace=True, prop=[r["property"]]), 60, gb=inst.memlimit_gb)
        js = parse(out) if rc is not None else None
        tr = [x for y in (js or []) if "result" in y for x in y["result"] if "trace" in x]
        val = extract_inputs(tr[0]["trace"]) if tr else None
        if val is None:
            return
        vh = write_values(d, val)
        try:
            exe = build.native(inst, d, vh, False, None)
        except Exception as ex:
            res.note = "native build for validation failed: " + str(ex)[-300:]
            return
        rc, o, e = run([exe], 60, gb=16, cwd=d)
        if rc == 0:
            res.validated += 1
        else:
            res.note = "witness run on the real code ended with rc=%s %s" % (rc, o[-200:])


def replay(inst, build, d, val, prop):
    vh = write_values(d, val)
    txts = []
    for san, variant in ((False, None), (True, None), (False, "pattern"), (False, "zero"), (True, "pattern")):
        try:
            exe = build.native(inst, d, vh, san, variant)
        except Exception as ex:
            txts.append(str(ex)[-600:])
            continue
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
        rc, o, e = run([exe], 60, gb=(1 << 22) if san else 16, env=env, cwd=d)
        txts.append(f"san={san} init={variant} rc={rc} {o[-400:]} {e[-1200:]}")
        if rc == 1 and "VC-FAIL" in o:
            return True, txts[-1]
        if (rc is None and e == "timeout") or (rc is not None and rc < 0) or (inst.mem and rc in (98, 99)):
            # crash, hang or (memory-safety instances) sanitizer report on the concrete input
            return True, txts[-1]
    return False, " ## ".join(txts)


# ------------------------------------------------------------------ running

class Slots:
    def __init__(self, n):
        self.n = n
        self.c = threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def run_instances(insts, jobs=None, log=None, budget=None, work=None):
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    work = work or tempfile.mkdtemp(prefix="lessvc_")
    build = Build(work)
    results = []
    slots = Slots(jobs)
    BUDGET_END[0] = time.time() + budget if budget else None

    def one(i):
        k = min(jobs, i.slots)
        slots.take(k)
        try:
            if STOP.is_set():
                r = Result(i)
                r.detail = "not run: stopped after a violation"
                return r
            return check_instance(i, build, work, log)
        finally:
            slots.give(k)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        futs = {ex.submit(one, i): i for i in insts}
        for f in as_completed(futs):
            r = f.result()
            results.append(r)
            if log:
                log(r)
            if r.status == BAD and os.environ.get("VERIF_FAILFAST", "1") == "1":
                kill_all()
    if os.environ.get("VERIF_LEARN"):
        with _live_lock:
            try:
                h = json.load(open(HINTS_FILE))
            except Exception:
                h = {}
            h.update({k: v for k, v in LEARNED.items()})
            json.dump(h, open(HINTS_FILE, "w"), indent=0, sort_keys=True)
    return results, work, build
