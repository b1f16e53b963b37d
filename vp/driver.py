"""Solver-based checking driver.

A property is a list of queries.  A query is a harness (C, public API only) plus
the real /repo sources it exercises.  Each run
  1. recompiles the real sources + harness to LLVM IR with clang,
  2. has symx (engine/symx.cpp) execute them symbolically: the harness inputs are
     SMT symbols, every branch / assertion / memory access / division that depends
     on them is decided by Z3, and all feasible paths are followed to their end,
  3. requires that the exploration completed and that the end of the harness was
     reached (vacuity guard),
  4. replays every counterexample on a native sanitizer build of the same sources
     (only what reproduces is reported), and replays a sample of the explored
     paths too: a model that diverges from the real code voids the verdict.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
TOOL = os.path.join(REPO, "srcs", "toolbox")
MISS = os.path.join(REPO, "srcs", "missing")

MODEL_NOTE = ("libc string/ctype/printf/strtol routines are the models in harness/libc.c under the solver (the real glibc in "
              "every native replay); logging calls are empty sinks unless logging is the subject; malloc succeeds for "
              "requests up to 8 MB unless the harness injects a failure; addresses are those of the engine's allocator")


class Q:
    """One query."""

    def __init__(self, name, harness, srcs, defs=(), tier="quick", timeout=400,
                 bounds="", rename=(), native_timeout=20, tdefs=None, ttimeout=None,
                 steps=3000000, workers=4, samples=24, missing=(), os=False,
                 need_reached=True, max_errors=60, tbounds=None):
        self.name, self.harness, self.srcs = name, harness, list(srcs) + ([] if "memory.c" in srcs else ["memory.c"])
        self.defs, self.tier, self.timeout = list(defs), tier, timeout
        self.bounds, self.rename = bounds, list(rename)
        self.native_timeout = native_timeout
        self.tdefs, self.ttimeout, self.tbounds = tdefs, ttimeout, tbounds
        self.steps, self.workers, self.samples = steps, workers, samples
        self.missing, self.os = list(missing), os
        self.need_reached, self.max_errors = need_reached, max_errors

    def at(self, tier):
        """the effective (defs, timeout, bounds) for a tier"""
        if tier == "thorough":
            return (self.tdefs if self.tdefs is not None else self.defs,
                    self.ttimeout or max(self.timeout, 3000), self.tbounds or self.bounds)
        return self.defs, self.timeout, self.bounds


_live = set()
_lock = threading.Lock()


def run(cmd, timeout, mem_gb=None, env=None, stdin=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, preexec_fn=pre, env=env)
    with _lock:
        _live.add(p.pid)
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        to = True
    finally:
        with _lock:
            _live.discard(p.pid)
    return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), to, time.time() - t0


def kill_all():
    with _lock:
        for pid in list(_live):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass


class Ctx:
    def __init__(self, prop, tier, keep=False):
        self.prop, self.tier = prop, tier
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.inc = os.path.join(self.tmp, "inc")
        self._lk, self._l = {}, threading.Lock()
        os.makedirs(os.path.join(self.inc, "u"))
        shutil.copy(os.path.join(VERIF, "conf", "u", "libu_conf.h"),
                    os.path.join(self.inc, "u", "libu_conf.h"))
        # a system without some functions: -DVP_NO_STRSEP takes HAVE_STRSEP away
        with open(os.path.join(self.inc, "u", "libu_conf.h"), "a") as fp:
            for f in sorted(os.listdir(MISS)) + ["getaddrinfo.c"]:
                f = f[:-2].upper()
                fp.write("#ifdef VP_NO_%s\n#undef HAVE_%s\n#endif\n" % (f, f))
        for d in ("missing", "toolbox"):
            os.symlink(os.path.join(REPO, "include", d), os.path.join(self.inc, "u", d))

    def lock(self, key):
        with self._l:
            return self._lk.setdefault(key, threading.Lock())

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def srcpath(s):
    if s.startswith("missing/"):
        return os.path.join(MISS, s[len("missing/"):])
    return os.path.join(TOOL, s)


# environment calls that the in-memory OS model (harness/vp_os.c) stands in for
OS_CALLS = ("fopen fdopen fclose fgets fread fwrite fputs fputc fprintf vfprintf fflush feof ferror fileno "
            "open close read write fstat stat lstat link unlink rename remove mkstemp lseek ftruncate fsync access "
            "fseek ftell rewind fgetc getc putc dup popen pclose").split()


def cflags(ctx, q, defs):
    """(include path, flags of every unit, flags of the real sources, flags of the harness)"""
    inc = ["-I" + HARN, "-I" + os.path.join(REPO, "include"), "-I" + ctx.inc]
    d = ["-D_GNU_SOURCE", "-DHAVE_CONF_H", "-w", "-U_FORTIFY_SOURCE"]
    ren = list(q.rename) + (OS_CALLS if q.os else [])
    r = ["-D%s=vp_%s" % (x, x) if "=" not in x else "-D" + x for x in ren]
    h = ["-D" + x for x in defs]
    if q.os:
        h += ["-DVP_OS"]
        r += ["-include", os.path.join(HARN, "vp_os.h")]
    return inc, d, r, h


def compile_one(ctx, src, cc, extra, inc, flags, suffix):
    key = hashlib.md5(repr((src, flags, cc, extra)).encode()).hexdigest()[:16]
    o = os.path.join(ctx.tmp, "u-%s%s" % (key, suffix))
    with ctx.lock(key):
        if not os.path.exists(o):
            rc, so, se, to, _ = run(cc + extra + ["-c", "-o", o + ".t"] + inc + flags + [src], 200)
            if rc != 0:
                return None, "compilation of %s failed: %s" % (src, (so + se)[-2000:])
            os.rename(o + ".t", o)
    return o, None


_defs = {}


def defining(sym):
    """the toolbox source that defines a function, if any"""
    if "" not in _defs:
        defs = {"": None}
        for f in sorted(os.listdir(TOOL)):
            if f.endswith(".c"):
                with open(os.path.join(TOOL, f), errors="replace") as fp:
                    for m in re.finditer(r"^(?!static)[A-Za-z_][\w \t\*\n]*?\b(\w+)[ \t]*\(", fp.read(), re.M):
                        defs.setdefault(m.group(1), f)
        _defs.update(defs)
    return _defs.get(sym)


def symbols(objs, suffix):
    u, d = set(), set()
    rc, so, se, to, _ = run(["llvm-nm-18" if suffix == ".bc" else "nm"] + objs, 60)
    for l in so.split("\n"):
        t = l.split()
        if len(t) >= 2 and t[-2] == "U":
            u.add(t[-1])
        elif len(t) >= 2:
            d.add(t[-1])
    return u - d, d


def compile_all(ctx, q, defs, out, cc, extra, suffix, with_model):
    inc, d, ren, h = cflags(ctx, q, defs)
    units = [(srcpath(x), ren) for x in q.srcs]
    units += [(os.path.join(HARN, q.harness), h), (os.path.join(HARN, "vp.c"), h)]
    if q.os:
        units.append((os.path.join(HARN, "vp_os.c"), h))
    if with_model:
        units.append((os.path.join(HARN, "libc.c"), h))
    objs = []
    for src, r in units:
        o, e = compile_one(ctx, src, cc, extra, inc, d + r, suffix)
        if e:
            return None, e
        objs.append(o)
    # other modules of the library that the ones under test (come to) depend on
    have = set(q.srcs)
    for _ in range(12):
        und, _d = symbols(objs, suffix)
        more = {defining(x) for x in und if x.startswith("u_")} - have - {None}
        if not more:
            break
        for x in sorted(more):
            have.add(x)
            o, e = compile_one(ctx, srcpath(x), cc, extra, inc, d + ren, suffix)
            if e:
                return None, e
            objs.append(o)
    return objs, None


def build_ir(ctx, q, defs, out):
    cc = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-builtin", "-emit-llvm"]
    objs, e = compile_all(ctx, q, defs, out, cc, ["-DVP_SYMEX", "-D__NO_CTYPE"], ".bc", True)
    if e:
        return e
    rc, so, se, to, _ = run(["llvm-link-18", "-o", out + ".l"] + objs, 120)
    if rc != 0:
        return "llvm-link: " + (so + se)[-1500:]
    rc, so, se, to, _ = run(["opt-18", "-passes=function(sroa)", out + ".l", "-o", out], 120)
    if rc != 0:
        return "opt: " + (so + se)[-1500:]
    return None


def build_native(ctx, q, defs, out, kind):
    if kind == "asan":
        cc = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fno-builtin",
              "-fsanitize=address,shift,bounds,integer-divide-by-zero",
              "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
    else:
        cc = ["clang-18", "-g", "-O1", "-fno-omit-frame-pointer", "-fno-builtin",
              "-fsanitize=memory", "-fno-sanitize-recover=all"]
    objs, e = compile_all(ctx, q, defs, out, cc, ["-DVP_REPLAY"], ".o", False)
    if e:
        return e
    rc, so, se, to, _ = run(cc + ["-o", out] + objs + ["-lm"], 120)
    if rc != 0:
        return "native link failed: " + (so + se)[-2000:]
    return None


def engine():
    """the symbolic executor, built from source when the cached binary is missing or stale"""
    src = os.path.join(VERIF, "engine", "symx.cpp")
    with open(src, "rb") as fp:
        h = hashlib.md5(fp.read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "vp-engine")):
        exe = os.path.join(d, "symx-" + h)
        if os.path.exists(exe):
            return exe
        try:
            os.makedirs(d, exist_ok=True)
            flags = subprocess.check_output(["llvm-config-18", "--cppflags"]).decode().split()
            ld = subprocess.check_output(["llvm-config-18", "--ldflags"]).decode().split()
            t = "%s.%d" % (exe, os.getpid())
            rc, so, se, to, _ = run(["g++", "-std=c++17", "-O2", "-fexceptions", "-w"] + flags + [src, "-o", t] + ld + ["-lLLVM-18", "-lz3"], 800)
            if rc != 0:
                raise RuntimeError("engine build failed: " + se[-3000:])
            os.rename(t, exe)
            return exe
        except OSError:
            continue
    raise RuntimeError("no place to build the engine")


def native_run(exe, inputs_file, timeout, fill):
    env = dict(os.environ)
    env["VP_INPUTS"] = inputs_file
    env["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:"
                           "free_fill_byte=85:max_free_fill_size=1048576:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=1:exitcode=98:abort_on_error=0:handle_abort=1" % fill)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    env["MSAN_OPTIONS"] = "exitcode=98:poison_in_dtor=1"
    rc, so, se, to, _ = run([exe], timeout, env=env)
    return rc, so, se, to


class Native:
    """lazily built native replay binaries of one query"""

    def __init__(self, ctx, q, defs):
        self.ctx, self.q, self.defs, self.exe, self.err = ctx, q, defs, {}, {}

    def get(self, kind):
        if kind not in self.exe and kind not in self.err:
            out = os.path.join(self.ctx.tmp, "%s.%s" % (self.q.name, kind))
            e = build_native(self.ctx, self.q, self.defs, out, kind)
            if e:
                self.err[kind] = e
            else:
                self.exe[kind] = out
        return self.exe.get(kind)

    def confirm(self, vals, kinds=(("asan", 0xbe), ("asan", 0xff), ("asan", 0x01), ("asan", 0x00), ("msan", 0))):
        """replay; returns (confirmed, how)"""
        f = os.path.join(self.ctx.tmp, "%s.in.%s" % (self.q.name, hashlib.md5(repr(vals).encode()).hexdigest()[:8]))
        with open(f, "w") as fp:
            fp.write("\n".join(str(v) for v in vals) + "\n")
        last = ""
        for kind, fill in kinds:
            exe = self.get(kind)
            if exe is None:
                last = self.err.get(kind, "")
                continue
            rc, so, se, to = native_run(exe, f, self.q.native_timeout, fill)
            if to:
                return True, "native run does not terminate within %ds (%s)" % (self.q.native_timeout, kind)
            if rc == 77:
                last = "assumption not met in native run: " + se[-200:]
                continue
            if rc == 99:
                return True, re.search(r"VP-REPLAY-FAILED: (.*)", se).group(1)
            if rc == 98 or "ERROR: AddressSanitizer" in se or "runtime error:" in se or "MemorySanitizer" in se:
                m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*|WARNING: MemorySanitizer.*)", se)
                loc = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", se)
                where = next((" in %s at %s" % (a, b) for a, b in loc if "/repo" in b or "/harness" in b), "")
                return True, (m.group(1) if m else "sanitizer report") + where
            if rc is not None and rc < 0:
                return True, "native run killed by signal %d" % -rc
            if rc != 0:
                last = "native exit %s: %s" % (rc, se[-300:])
                continue
            last = "native run completed cleanly"
        return False, last


SUMS = ("paths", "completed", "assumed_away", "err_paths", "killed", "forks", "insts", "queries", "sat", "unsat", "cache_hits",
        "asserts", "symbolic_asserts", "reached", "solver_s")


def load_result(out):
    with open(out) as fp:
        j = json.load(fp)
    parts = [j]
    if "parts" in j:
        parts = []
        for p in j["parts"]:
            try:
                with open(p) as fp:
                    parts.append(json.load(fp))
            except (OSError, ValueError):
                parts.append({"complete": False, "fatal": "a worker died", "errors": [], "samples": [], "functions": []})
    r = {k: 0 for k in SUMS}
    r.update({"complete": True, "fatal": "", "stopped": False, "errors": {}, "samples": [], "functions": set(), "maxdepth": 0})
    for p in parts:
        for k in SUMS:
            r[k] += p.get(k, 0)
        r["complete"] = r["complete"] and p.get("complete", False)
        r["stopped"] = r["stopped"] or p.get("stopped", False)
        r["fatal"] = r["fatal"] or p.get("fatal", "")
        r["maxdepth"] = max(r["maxdepth"], p.get("maxdepth", 0))
        for e in p["errors"]:
            k = (e["kind"], e["msg"], e["func"], e["line"])
            if k in r["errors"]:
                r["errors"][k]["count"] += e["count"]
                r["errors"][k]["inputs"] = (r["errors"][k]["inputs"] + e["inputs"])[:6]
            else:
                r["errors"][k] = e
        r["samples"] += p["samples"]
        for n, f in p["functions"]:
            if "/srcs/" in f or "/include/" in f:
                r["functions"].add(n)
    return r


def run_query(ctx, q, exe):
    defs, timeout, bounds = q.at(ctx.tier)
    res = {"query": q.name, "harness": q.harness, "functions_encoded": [], "bounds": bounds, "defs": list(defs),
           "status": "error", "detail": "", "wall_s": 0.0, "violations": []}
    t0 = time.time()
    out = os.path.join(ctx.tmp, q.name + ".bc")
    e = build_ir(ctx, q, defs, out)
    if e:
        res["detail"] = e
        return res
    native = Native(ctx, q, defs)
    builder = threading.Thread(target=native.get, args=("asan",))
    builder.start()
    js = out + ".json"
    rc, so, se, to, wall = run([exe, out, js, "--timeout", str(timeout), "--steps", str(q.steps), "--workers", str(q.workers),
                                "--samples", str(q.samples), "--max-errors", str(q.max_errors),
                                "--seed", os.environ.get("VERIF_SEED", "1")], timeout + 60, mem_gb=q.workers * 4 + 4)
    builder.join()
    if to or not os.path.exists(js):
        res["status"] = "timeout" if to else "error"
        res["detail"] = "engine gave no result (rc %s): %s" % (rc, se[-400:])
        return res
    r = load_result(js)
    for k in SUMS + ("maxdepth",):
        res[k] = round(r[k], 3) if isinstance(r[k], float) else r[k]
    res["functions_encoded"] = sorted(r["functions"])
    res["exhaustive"] = r["complete"]
    # 1. counterexamples: confirm natively
    order = {"assert": 0, "memory": 1, "arith": 2, "abort": 3, "unreachable": 3, "recursion": 4, "nontermination": 5, "uninit": 6}
    unconf = []
    for e in sorted(r["errors"].values(), key=lambda e: order.get(e["kind"], 9))[:12]:
        what = "%s: %s [%s:%s in %s]" % (e["kind"], e["msg"], os.path.basename(e["file"]), e["line"], e["func"])
        kinds = (("asan", 0xbe), ("asan", 0xff), ("asan", 0x01), ("asan", 0x00), ("msan", 0))
        if e["kind"] == "uninit":
            kinds = (("msan", 0),)
        elif e["kind"] in ("nontermination", "recursion"):
            kinds = (("asan", 0xbe),)
        ok, how = False, ""
        for vals in e["inputs"][:1 if e["kind"] == "nontermination" else 3]:
            ok, how = native.confirm(vals, kinds)
            if ok:
                res["violations"].append({"assertion": what, "native": how, "inputs": vals, "stack": e["stack"]})
                break
        if not ok:
            unconf.append("%s (stack %s; inputs %s): not reproduced natively: %s" % (what, e["stack"], e["inputs"][:1], how))
    # 2. sampled paths: the model and the real code must agree
    val, div = 0, []
    nat = native.get("asan")
    if nat and not res["violations"]:
        sm = r["samples"]
        step = max(1, len(sm) // max(1, q.samples))
        for i, smp in enumerate(sm[::step][:q.samples]):
            f = os.path.join(ctx.tmp, "%s.smp%d" % (q.name, i))
            with open(f, "w") as fp:
                fp.write("\n".join(map(str, smp["in"])) + "\n")
            nrc, nso, nse, nto = native_run(nat, f, q.native_timeout, 0xbe)
            m = re.search(r"VP-REPLAY-COMPLETED asserts=(\d+) reached=(\d)", nse)
            if nrc == 0 and m and (smp["undef"] or (int(m.group(1)) == smp["asserts"] and bool(int(m.group(2))) == smp["reached"])):
                val += 1
            elif nrc in (98, 99) or (nrc is not None and nrc < 0) or nto:
                ok, how = native.confirm(smp["in"], (("asan", 0xbe),))
                res["violations"].append({"assertion": "native run of an explored path fails", "native": how, "inputs": smp["in"], "stack": ""})
                break
            else:
                div.append("inputs %s: rc %s, %s; engine asserts=%s reached=%s" % (smp["in"], nrc, (m.group(0) if m else nse[-300:]), smp["asserts"], smp["reached"]))
    res["paths_validated"] = val
    res["sample_inputs"] = [x["in"] for x in r["samples"][:4]]
    if res["violations"]:
        res["status"] = "violation"
        res["detail"] = ("also: " + "; ".join(unconf[:2])) if unconf else ""
    elif nat is None:
        res["status"], res["detail"] = "error", native.err.get("asan", "")
    elif unconf:
        res["status"], res["detail"] = "unconfirmed", " || ".join(unconf[:3])
    elif r["fatal"]:
        res["status"] = "timeout" if "budget" in r["fatal"] else "error"
        res["detail"] = r["fatal"]
    elif not r["complete"]:
        res["status"], res["detail"] = "incomplete", "exploration stopped early"
    elif q.need_reached and r["reached"] == 0:
        res["status"], res["detail"] = "vacuous", "no path reaches the end of the harness"
    elif div:
        res["status"], res["detail"] = "diverged", " || ".join(div[:3])
    else:
        res["status"] = "proved"
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        return json.load(fp)


REPLAY_SH = """#!/bin/bash
# Replays a solver counterexample for property %(prop)s, query %(q)s, on the real
# sources in ${VP_REPO:-/repo} (native build, sanitizers on).
# expected: %(what)s
exec python3 %(verif)s/run.py --replay %(prop)s %(q)s "$(dirname "$0")/%(inp)s"
"""


def write_replay(prop, name, q, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    base = "%s-%s" % (prop, name)
    inp = base + ".inputs"
    with open(os.path.join(d, inp), "w") as fp:
        fp.write("\n".join(map(str, v["inputs"])) + "\n")
    sh = os.path.join(d, base + ".sh")
    with open(sh, "w") as fp:
        fp.write(REPLAY_SH % {"prop": prop, "q": q, "what": v["native"].replace("\n", " "),
                              "verif": VERIF, "inp": inp})
    os.chmod(sh, 0o755)
    return sh


def check(prop, spec, tier, only=None, jobs=None):
    t0 = time.time()
    exe = engine()
    ctx = Ctx(prop, tier)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    qs = [q for q in spec["queries"] if (tier == "thorough" or q.tier == "quick")]
    if only:
        qs = [q for q in qs if q.name in only]
    jobs = jobs or int(os.environ.get("VP_JOBS", "4"))
    out = []
    budget = 850 if tier == "quick" else 6 * 3600
    try:
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            futs = {ex.submit(run_query, ctx, q, exe): q for q in qs}
            try:
                for f in cf.as_completed(futs, timeout=budget):
                    r = f.result()
                    out.append(r)
                    print("  [%s] %-22s %-11s %6.1fs  %s paths, %s insts, %s queries (%.1fs), %s asserts, %s replayed %s" % (
                        prop, r["query"], r["status"], r["wall_s"], r.get("paths", "-"), r.get("insts", "-"),
                        r.get("queries", "-"), r.get("solver_s", 0), r.get("asserts", "-"), r.get("paths_validated", "-"),
                        r["detail"][:900]), flush=True)
            except cf.TimeoutError:
                kill_all()
                for f, q in futs.items():
                    if not f.done():
                        out.append({"query": q.name, "status": "timeout", "detail": "tier budget exhausted",
                                    "wall_s": 0, "functions_encoded": [], "bounds": q.bounds, "violations": []})
                        f.cancel()
    finally:
        ctx.close()
    kf = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    rc = 0
    nviol = 0
    for r in sorted(out, key=lambda r: r["query"]):
        seen = set()
        left = 0
        nat = set()
        for n, v in enumerate(r["violations"]):
            hit = next((k for k in kf if k.get("query") in (None, r["query"]) and re.search(k["match"], v["assertion"] + " | " + v["native"])), None)
            if hit:
                if hit["what"] not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
                seen.add(hit["what"])
                continue
            nviol += 1
            rc = 1
            if v["native"] in nat or left >= 4:
                continue
            nat.add(v["native"])
            left += 1
            path = write_replay(prop, "%s-%d" % (r["query"], n), r["query"], v)
            print("  counterexample in %s: %s\n    native: %s\n    inputs: %s" % (
                r["query"], v["assertion"], v["native"], str(v["inputs"])[:160]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if r["status"] not in ("proved", "violation"):
            print("  INCONCLUSIVE %s: %s %s" % (r["query"], r["status"], r["detail"]))
            if rc == 0:
                rc = 2
    evidence(prop, spec, tier, seed, out, nviol, time.time() - t0)
    print("%s %s: %d queries, %.1fs, exit %d" % (prop, tier, len(out), time.time() - t0, rc))
    return rc


def evidence(prop, spec, tier, seed, out, nviol, wall):
    if not out:
        return

    def tot(k):
        return sum(r.get(k, 0) or 0 for r in out)
    cov = {
        "explanation": ("path-based symbolic execution (engine/symx.cpp) of the LLVM IR of the real C sources; the harness inputs are SMT "
                        "bit-vectors, Z3 decides every branch, assertion, bounds check and division that depends on them. states = feasible "
                        "paths followed to their end, transitions = IR instructions executed; every verdict holds for all input values "
                        "within the stated bounds only"),
        "states": tot("paths"), "transitions": tot("insts"),
        "traces_validated_against_impl": tot("paths_validated") + nviol,
        "queries": len(out), "queries_proved": sum(r["status"] == "proved" for r in out),
        "smt_queries": tot("queries"), "smt_sat": tot("sat"), "smt_unsat": tot("unsat"), "smt_cache_hits": tot("cache_hits"),
        "solver_s": round(tot("solver_s"), 2), "assertions_checked": tot("asserts"), "symbolic_assertions": tot("symbolic_asserts"),
        "forks": tot("forks"),
        "functions_encoded": sorted({f for r in out for f in r.get("functions_encoded", [])}),
        "samples": [{k: r.get(k) for k in ("query", "bounds", "defs", "status", "exhaustive", "paths", "completed", "assumed_away", "insts", "queries",
                                           "sat", "unsat", "solver_s", "asserts", "symbolic_asserts", "maxdepth", "reached", "paths_validated",
                                           "sample_inputs", "violations", "detail", "wall_s")} for r in out],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": spec.get("assumptions", []) + [MODEL_NOTE]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as fp:
        json.dump(ev, fp, indent=1)
    os.replace(p + ".tmp", p)


def replay(prop, spec, qname, inputs):
    ctx = Ctx(prop, "quick")
    try:
        q = next(q for q in spec["queries"] if q.name == qname)
        with open(inputs) as fp:
            vals = [int(x) for x in fp.read().split()]
        best = None
        for tier in ("quick", "thorough"):
            n = Native(ctx, q, q.at(tier)[0])
            ok, how = n.confirm(vals)
            if ok:
                print("reproduced: " + how)
                return 1
            best = how
        print("not reproduced: %s" % best)
        return 0
    finally:
        ctx.close()
