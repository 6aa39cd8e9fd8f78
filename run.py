#!/usr/bin/env python3
"""Solver-based checks of MPS-Basic.  usage: run.py PROPERTY [--case NAME] [--verbose]
Compiles the current /repo sources to LLVM IR, executes them symbolically (engine/), replays every solver model on the
untouched program, writes evidence/PROPERTY.json.  Exit 0 held, 1 VIOLATION, 2 no verdict."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import resource
import signal
import shutil
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG = "/usr/bin/clang++"
CVC5 = "/usr/bin/cvc5"
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
INC = ["-I/usr/include/eigen3", "-I/usr/include/libfccp", "-I" + REPO + "/src", "-I" + REPO + "/generator", "-I" + V + "/engine", "-I" + REPO]
SYMFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-DSX_SYMBOLIC", "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_ASSERTIONS", "-DCSV_IO_NO_THREAD",
            "-include", "stdlib.h", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-w", "-include", V + "/engine/solver_stub.hpp"]
NATFLAGS = ["-std=c++17", "-O2", "-DNDEBUG", "-w"]
SANFLAGS = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-w", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize=float-divide-by-zero",
            "-fno-sanitize-recover=undefined,float-cast-overflow", "-fno-omit-frame-pointer"]
# the parallel loops themselves: outlined by clang, every memory access reported to engine/omp.cpp
OMPFLAGS = ["-fopenmp", "-fsanitize=thread", "-DSX_OMP", "-I" + V + "/engine/omp"]
OMPWRAP = ["-Wl,--version-script=" + V + "/engine/omp/exports.map", "-Wl,--wrap=free", "-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=__cxa_guard_acquire",
           "-Wl,--wrap=__cxa_guard_release"]
CACHE = os.environ.get("VERIF_CACHE", V + "/.cache")


class Fail(Exception):
    pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def headers_key():
    fs = sorted(f for d in ("src", "generator") for f in glob.glob(REPO + "/" + d + "/**/*", recursive=True)
                if f.endswith((".hpp", ".h", ".hh", ".ipp", ".inl", ".tpp")))
    fs += [V + "/engine/harness.hpp", V + "/engine/solver_stub.hpp", V + "/engine/rewrite.py", V + "/engine/omp_api.hpp", V + "/engine/omp/omp.h"]
    fs += sorted(glob.glob(V + "/harness/*.hpp"))
    return digest(*[f.encode() + b":" + rd(f) for f in fs])


def sources(extra):
    out = [f for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if os.path.basename(f) != "main.cpp"]
    return out + [REPO + "/" + e for e in extra]


def entry(src, obj):
    """The main() of a program becomes a function of the harness, everything else of a generator local to it."""
    name = {"/src/main.cpp": "mps_main", "/generator/generate_dambreak.cpp": "dambreak_main", "/generator/generate_hydrostatic.cpp": "hydrostatic_main"}.get(src[len(REPO):])
    if not name:
        return
    args = ["--redefine-sym", "main=" + name]
    for l in sh(["nm", "--defined-only", obj]).stdout.splitlines():
        w = l.split()
        if len(w) == 3 and w[1] in "TBD" and w[2] != "main":
            args.append("--localize-symbol=" + w[2])
    r = sh(["objcopy"] + args + [obj])
    if r.returncode:
        raise Fail("objcopy: " + src + "\n" + r.stdout[-3000:])


class Builder:
    def __init__(self, work, omp=False):
        self.work = work
        self.omp = omp
        self.symflags = SYMFLAGS + (OMPFLAGS if omp else [])
        self.hk = headers_key()
        self.pool = cf.ThreadPoolExecutor(8)
        os.makedirs(CACHE, exist_ok=True)
        self.fpops = {}
        self.ir = {}

    def put(self, src, key, ext):
        dst = CACHE + "/" + key + ext
        tmp = dst + ".%d" % os.getpid()
        shutil.copyfile(src, tmp)
        shutil.copymode(src, tmp)
        os.replace(tmp, dst)
        return dst

    def stem(self, src):
        return src.replace("/", "_")

    def sym(self, src):
        key = digest(rd(src), src, self.hk, " ".join(self.symflags), "sym6")
        obj, meta = CACHE + "/" + key + ".o", CACHE + "/" + key + ".json"
        if os.path.exists(obj) and os.path.exists(meta):
            m = json.load(open(meta))
        else:
            b = self.work + "/" + self.stem(src)
            r = sh([CLANG] + self.symflags + INC + ["-S", "-emit-llvm", src, "-o", b + ".ll"])
            if r.returncode:
                raise Fail("clang: " + src + "\n" + r.stdout[-3000:])
            r = sh([sys.executable, V + "/engine/rewrite.py", b + ".ll", b + ".r.ll"])
            if r.returncode:
                raise Fail("rewrite: " + src + "\n" + r.stdout[-3000:])
            m = {"rewritten": int(r.stdout.strip().splitlines()[-1] or 0),
                 "functions": [l for l in open(b + ".ll") if l.startswith("define")].__len__()}
            r = sh([CLANG, "-O1", "-w", "-c", b + ".r.ll", "-o", b + ".sym.o"])
            if r.returncode:
                raise Fail("codegen: " + src + "\n" + r.stdout[-3000:])
            entry(src, b + ".sym.o")
            json.dump(m, open(b + ".json", "w"))
            self.put(b + ".json", key, ".json")
            self.put(b + ".sym.o", key, ".o")
        self.fpops[src] = m["rewritten"]
        self.ir[src] = m["functions"]
        return obj

    def nat(self, src, flags, tag):
        cxx = "g++"
        if self.omp:  # one native build, by the compiler whose loops are checked; the API itself is not instrumented
            cxx, tag, flags = CLANG, "o", NATFLAGS + (["-DSX_OMP"] if src.startswith(V + "/engine/") else OMPFLAGS)
        key = digest(rd(src), src, self.hk, " ".join(flags), "nat2" + tag)
        obj = CACHE + "/" + key + ".o"
        if not os.path.exists(obj):
            b = self.work + "/" + self.stem(src) + "." + tag + ".o"
            r = sh([cxx] + flags + INC + ["-c", src, "-o", b])
            if r.returncode:
                raise Fail("g++: " + src + "\n" + r.stdout[-3000:])
            entry(src, b)
            self.put(b, key, ".o")
        return obj

    def runtime(self):
        key = digest(rd(V + "/engine/runtime.cpp"), rd(V + "/engine/harness.hpp"), "rt3" + str(self.omp))
        if self.omp:  # a library of its own, so that it shares no template instances with the instrumented code
            obj = CACHE + "/" + key + ".so"
            if not os.path.exists(obj):
                b = self.work + "/runtime.so"
                r = sh([CLANG, "-std=c++17", "-O1", "-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-I" + Z3 + "/include", "-I" + V + "/engine",
                        V + "/engine/runtime.cpp", "-o", b, "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"])
                if r.returncode:
                    raise Fail("runtime: " + r.stdout[-3000:])
                self.put(b, key, ".so")
            return obj
        obj = CACHE + "/" + key + ".o"
        if not os.path.exists(obj):
            b = self.work + "/runtime.o"
            r = sh([CLANG, "-std=c++17", "-O1", "-w", "-I" + Z3 + "/include", "-I" + V + "/engine", "-c", V + "/engine/runtime.cpp", "-o", b])
            if r.returncode:
                raise Fail("runtime: " + r.stdout[-3000:])
            self.put(b, key, ".o")
        return obj

    def ompruntime(self):
        if not self.omp:
            return []
        key = digest(rd(V + "/engine/omp.cpp"), rd(V + "/engine/omp_api.hpp"), "omp1")
        obj = CACHE + "/" + key + ".o"
        if not os.path.exists(obj):
            b = self.work + "/omp.o"
            r = sh([CLANG, "-std=c++17", "-O2", "-w", "-I" + V + "/engine", "-c", V + "/engine/omp.cpp", "-o", b])
            if r.returncode:
                raise Fail("omp runtime: " + r.stdout[-3000:])
            self.put(b, key, ".o")
        return [obj] + OMPWRAP

    def build(self, harness, extra, want_san):
        hs = V + "/harness/" + harness + ".cpp"
        srcs = sources(extra)
        f_rt = self.pool.submit(self.runtime)
        f_sym = [self.pool.submit(self.sym, s) for s in srcs + [hs]]
        f_nat = [self.pool.submit(self.nat, s, NATFLAGS, "n") for s in srcs + [hs, V + "/engine/native.cpp"]]
        f_san = [self.pool.submit(self.nat, s, SANFLAGS, "s") for s in srcs + [hs, V + "/engine/native.cpp"]] if want_san else []
        symbin = self.work + "/" + harness + ".sym"
        r = sh([CLANG, "-o", symbin] + [f.result() for f in f_sym] + self.ompruntime() + [f_rt.result(), "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lyaml-cpp", "-lpthread"])
        if r.returncode:
            raise Fail("link: " + r.stdout[-4000:])
        natbin = self.work + "/" + harness + ".nat"
        r = sh([CLANG if self.omp else "g++", "-o", natbin, "-Wl,--wrap=exit"] + [f.result() for f in f_nat] + self.ompruntime() + ["-lyaml-cpp", "-lpthread"])
        if r.returncode:
            raise Fail("link: " + r.stdout[-4000:])
        sanbin = None
        if want_san:
            sanbin = self.link_san(harness, [f.result() for f in f_san])
        return symbin, natbin, sanbin

    def link_san(self, harness, objs):
        if self.omp:
            return self.work + "/" + harness + ".nat"
        sanbin = self.work + "/" + harness + ".san"
        r = sh(["g++", "-fsanitize=address,undefined", "-o", sanbin, "-Wl,--wrap=exit"] + objs + ["-lyaml-cpp", "-lpthread"])
        if r.returncode:
            raise Fail("link: " + r.stdout[-4000:])
        return sanbin

    def san(self, harness, extra):
        hs = V + "/harness/" + harness + ".cpp"
        if self.omp:
            return self.link_san(harness, [])
        fs = [self.pool.submit(self.nat, s, SANFLAGS, "s") for s in sources(extra) + [hs, V + "/engine/native.cpp"]]
        return self.link_san(harness, [f.result() for f in fs])


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def native(binary, case, model, work, tag, timeout=60, jitter=0):
    d = work + "/n" + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/model", "w") as f:
        for k, v in model.items():
            f.write("%s %s\n" % (k, repr(v) if isinstance(v, float) else v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=0")
    out = {"failed": [], "passed": [], "obs": {}, "crash": None, "skipped": None, "end": False, "inputs": {}}
    try:
        r = subprocess.run([binary, case, d + "/model", d + "/result", d] + ([str(jitter)] if jitter else []), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env,
                           preexec_fn=None if binary.endswith(".san") else limit_memory)
        if r.returncode != 0:
            err = r.stderr.decode(errors="replace")
            line = next((l for l in err.splitlines() if "runtime error" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l), "")
            out["crash"] = "exit status %d %s" % (r.returncode, line.strip())
    except subprocess.TimeoutExpired:
        out["crash"] = "did not terminate within %d s" % timeout
    try:
        for l in open(d + "/result", errors="replace"):
            k, _, rest = l.rstrip("\n").partition(" ")
            if k == "F":
                out["failed"].append(rest)
            elif k == "C":
                out["passed"].append(rest)
            elif k == "O":
                n, _, v = rest.rpartition(" ")
                out["obs"][n] = float(v)
            elif k == "M":
                n, _, v = rest.rpartition(" ")
                out["inputs"][n] = float(v)
            elif k in "AD":
                out["skipped"] = k
            elif k == "X":
                out["crash"] = rest
            elif k == "E":
                out["end"] = True
    except OSError:
        pass
    shutil.rmtree(d, ignore_errors=True)
    return out


def known_findings():
    ks = []
    try:
        for l in open(V + "/known_findings.txt"):
            l = l.strip()
            if l.startswith("known:"):
                head, _, desc = l[6:].partition("|")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                d["desc"] = desc.strip()
                ks.append(d)
    except OSError:
        pass
    return ks


def known_for(known, pid, x):
    return next((q for q in known if q.get("property") == pid and q.get("case") == x["case"]
                 and q.get("label", "").replace("_", " ") == x["label"].replace("_", " ")), None)


def execute(cmd, env, work, c, pid, known, natbin, pool, san, harness, extra):
    """Run the executor.  Its counterexamples are replayed on the real code as they arrive; once one that is not a listed
    finding is confirmed, the exploration ends: the verdict cannot change any more."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=work, start_new_session=True)
    lines, err, hit, n = [], [], threading.Event(), {}

    def probe(e, tag):
        try:
            o = native(natbin, c["name"], e["model"], work, tag, 30)
            labs = o["failed"] if e["k"] == "check" else (["crash"] if o["crash"] else [])
            labs = [l for l in labs if not known_for(known, pid, dict(case=c["name"], label=l))]
            if labs and not o["skipped"]:
                hit.set()
        except Exception as x:  # noqa: BLE001
            err.append(repr(x))

    def reader():
        for raw in p.stdout:
            l = raw.decode(errors="replace").rstrip("\n")
            lines.append(l)
            if l.startswith('{"t":"viol"'):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                k = n[e["label"]] = n.get(e["label"], 0) + 1
                if k <= 6:
                    pool.submit(probe, e, "p%s%d-%d" % (c["name"], len(n), k))

    th = threading.Thread(target=reader, daemon=True)
    te = threading.Thread(target=lambda: err.append(p.stderr.read().decode(errors="replace")), daemon=True)
    th.start()
    te.start()
    early = False
    while th.is_alive():
        th.join(0.2)
        if hit.is_set() and th.is_alive():
            early = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            th.join(5)
            break
    status = p.wait()
    if early and lines:
        try:
            json.loads(lines[-1])
        except ValueError:
            lines.pop()
    return (0 if early else status), "".join(err)[-400:], list(lines), early


def run_property(pid, only=None, verbose=False):
    cfg = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return _run(pid, cfg, work, only, verbose, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run(pid, cfg, work, only, verbose, t0):
    b = Builder(work, cfg.get("omp", False))
    harness = cfg["harness"]
    extra = cfg.get("extra", [])
    symbin, natbin, sanbin = b.build(harness, extra, cfg.get("san", False))
    tbuild = time.time() - t0
    cases = [c for c in cfg["cases"] if only is None or c["name"] == only]
    if only is None and TIER != "thorough":
        cases = [c for c in cases if not c.get("thorough")]
    tot = dict(paths=0, done=0, queries=0, sat=0, unsat=0, unknown=0, checks=0, discharged=0, trivial=0, branches=0, concretised=0,
               decisions=0, secs=0.0, maxq=0.0, nodes=0)
    status_count, labels, undecided, confirmed, unconfirmed = {}, {}, [], [], []
    per_case, samples = [], []
    validated = disagree = natfail = skipped = 0
    disagreements = []
    pool = cf.ThreadPoolExecutor(8)
    known = known_findings()
    budget = 600 if TIER != "thorough" else 1e9
    for c in cases:
        if time.time() - t0 > budget:
            undecided.append("exploration stopped: no time left for case " + c["name"])
            continue
        opts = dict(timeout=240, path_timeout=100, branch_ms=4000, check_ms=30000, models=24)
        if TIER == "thorough":
            opts.update(timeout=3000, path_timeout=900, branch_ms=20000, check_ms=240000, models=200)
        for k in list(opts):
            if k in c:
                opts[k] = max(c[k], opts[k]) if TIER == "thorough" else c[k]
        opts["timeout"] = min(opts["timeout"], max(20, int(budget - (time.time() - t0))))
        env = dict(os.environ, SX_TIER=TIER, SX_SEED=str(SEED))
        cmd = [symbin, "--case", c["name"], "--tmp", work, "--cvc5", CVC5, "--jobs", "8"]
        for k, v in opts.items():
            cmd += ["--" + k.replace("_", "-"), str(v)]
        tc = time.time()
        status, err, lines, early = execute(cmd, env, work, c, pid, known, natbin, pool, b.san, harness, extra)
        if status:
            undecided.append("%s: executor status %d %s" % (c["name"], status, err))
            continue
        viols, ends, done = [], [], 0
        cl = {}
        for l in lines:
            try:
                e = json.loads(l)
            except ValueError:
                undecided.append("%s: unreadable line %s" % (c["name"], l[:200]))
                continue
            t = e["t"]
            if t == "viol":
                viols.append(e)
            elif t == "undecided":
                undecided.append(c["name"] + ": " + e["what"])
            elif t == "end":
                status_count[e["s"]] = status_count.get(e["s"], 0) + 1
                tot["decisions"] += e["dec"]
                if e["s"] == "done":
                    done += 1
                if "model" in e:
                    ends.append(e)
            elif t == "stats":
                for a, k in (("q", "queries"), ("sat", "sat"), ("unsat", "unsat"), ("unk", "unknown"), ("checks", "checks"), ("disch", "discharged"),
                             ("triv", "trivial"), ("br", "branches"), ("conc", "concretised"), ("secs", "secs"), ("nodes", "nodes")):
                    tot[k] += e[a]
                tot["maxq"] = max(tot["maxq"], e["maxq"])
                for k, v in e["labels"].items():
                    x = cl.setdefault(k, [0, 0])
                    x[0] += v[0]
                    x[1] += v[1]
            elif t == "summary":
                tot["paths"] += e["paths"]
        tot["done"] += done
        for k, v in cl.items():
            labels[c["name"] + "/" + k] = v
        # --- replay the solver's counterexamples on the untouched program
        tried = {}
        jobs = []
        for e in viols:
            k = e["label"]
            n = tried.get(k, 0)
            if n >= 10:
                continue
            tried[k] = n + 1
            for m in [e["model"]] + e.get("more", []):
                jobs.append((e, m))
        auto = any(e["k"] not in ("check", "hang") for e, _ in jobs)
        if auto and sanbin is None:
            sanbin = b.san(harness, extra)
        cbug, cunc = {}, {}
        futs = []
        for i, (e, m) in enumerate(jobs):
            binary = natbin if e["k"] in ("check", "hang") else sanbin
            futs.append(pool.submit(native, binary, c["name"], m, work, "v%s%d" % (c["name"], i), 30))
        for (e, m), f in zip(jobs, futs):
            o = f.result()
            lab = e["label"]
            hit = (lab in o["failed"]) if e["k"] == "check" else bool(o["crash"])
            if e["k"] == "hang" and not hit and not o["failed"]:
                continue  # it does end: merely too slow symbolically
            if not hit and (o["failed"] or o["crash"]):
                hit = True
                lab = o["failed"][0] if o["failed"] else "crash"
                o["note"] = "solver model for '%s' breaks '%s' on the real code" % (e["label"], lab)
            if hit:
                cbug.setdefault(lab, (m, o))
                cunc.pop(e["label"], None)
            elif e["label"] not in cbug:
                cunc.setdefault(e["label"], (m, o))
        # a model that the real code does not fail on may sit on round numbers the defect spares: try its neighbourhood
        if cunc and not cbug:
            futs = [(lab, m, pool.submit(native, natbin, c["name"], m, work, "j%s%d_%d" % (c["name"], i, k), 30, 6 * i + 1 + k))
                    for i, (lab, (m, _)) in enumerate(cunc.items()) for k in range(6)]
            for lab, m, f in futs:
                o = f.result()
                if o["failed"] and not o["skipped"]:
                    o["note"] = "an input in the neighbourhood of the solver's model for '%s'" % lab
                    cbug.setdefault(o["failed"][0], (dict(m, **o["inputs"]), o))
        for lab, (m, o) in cbug.items():
            confirmed.append(dict(case=c["name"], label=lab, model=m, native=dict(failed=o["failed"], crash=o["crash"]), note=o.get("note")))
        for lab, (m, o) in cunc.items():
            if not cbug:
                unconfirmed.append(dict(case=c["name"], label=lab, model=m, native=o))
        # --- translator validation: path models through the real program
        vbin = sanbin if cfg.get("san") else natbin
        futs = [pool.submit(native, vbin, c["name"], e["model"], work, "e%s%d" % (c["name"], i), 60) for i, e in enumerate(ends)]
        for e, f in zip(ends, futs):
            o = f.result()
            if o["skipped"]:
                skipped += 1
                continue
            if o["crash"] or o["failed"]:
                lab = o["failed"][0] if o["failed"] else "crash"
                natfail += 1
                if not any(x["case"] == c["name"] and x["label"] == lab for x in confirmed):
                    confirmed.append(dict(case=c["name"], label=lab, model=e["model"], native=dict(failed=o["failed"], crash=o["crash"]),
                                          note="solver-generated path input; the property fails on the real code"))
                continue
            bad = None
            for n, v in e["obs"]:
                w = o["obs"].get(n)
                v = float(v)
                if w is None or not (v == w or (v != v and w != w) or abs(v - w) <= 1e-6 * max(1.0, abs(v), abs(w))):
                    bad = (n, v, w)
                    break
            validated += 1
            if bad:
                disagree += 1
                if len(disagreements) < 5:
                    disagreements.append(dict(case=c["name"], observed=bad[0], symbolic=bad[1], native=bad[2], model=e["model"]))
        if ends and len(samples) < 4:
            samples.append(dict(case=c["name"], model=ends[0]["model"], observed=ends[0]["obs"][:6]))
        if not done and not viols:
            undecided.append("%s: no path reached the end of the harness (vacuous)" % c["name"])
        for lab in c.get("reach", []):
            if not any(k.startswith(lab) for k in cl) and not viols:
                undecided.append("%s: label '%s' never evaluated (vacuous)" % (c["name"], lab))
        per_case.append(dict(case=c["name"], bounds=c.get("bounds", ""), paths_done=done, labels={k: v for k, v in sorted(cl.items())},
                             wall_s=round(time.time() - tc, 2)))
        if verbose:
            print("%-28s done=%d viols=%d ends=%d wall=%.1f labels=%s" % (c["name"], done, len(viols), len(ends), time.time() - tc, cl), flush=True)
        if early or any(not known_for(known, pid, x) for x in confirmed):
            undecided.append("exploration stopped at a confirmed violation in " + c["name"])
            break
    rc = 0
    nviol = 0
    os.makedirs(V + "/out", exist_ok=True)
    for k, x in enumerate(confirmed):
        kf = known_for(known, pid, x)
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["desc"]))
            continue
        nviol += 1
        rp = V + "/out/%s-%d.json" % (pid, k)
        json.dump(dict(property=pid, harness=harness, case=x["case"], label=x["label"], inputs=x["model"], native=x["native"], note=x["note"],
                       how="python3 /verif/run.py %s --replay %s" % (pid, rp)), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  case %s: '%s' fails on the real code for %s" % (x["case"], x["label"], json.dumps(x["model"])[:600]))
        rc = 1
    # No verdict (exit 2) when the machinery could not do its work; a question left open by a time limit, or a candidate
    # counterexample that the real code refutes, is reported and recorded as non-exhaustive.
    soft = ("not decided in time", "path time limit", "decision bound", "concretisation of", "no model", "exploration stopped", "alternative dropped", "without a model")
    hard = [u for u in undecided if not any(s in u for s in soft)]
    if rc == 0 and (hard or not tot["done"] or tot["discharged"] < 0.5 * tot["checks"]):
        rc = 2
    for u in sorted(set(undecided))[:12]:
        print("UNDECIDED", u)
    for u in unconfirmed[:6]:
        print("UNCONFIRMED counterexample (not reproduced natively):", u["case"], u["label"], json.dumps(u["model"])[:500], u["native"]["skipped"] or "")
    for d in disagreements:
        print("NOTE symbolic/native values differ:", json.dumps(d)[:400])
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(
                  states=tot["done"], transitions=tot["decisions"], traces_validated_against_impl=validated, samples=samples,
                  exhaustive=(rc == 0 and not undecided and not unconfirmed), unconfirmed_counterexamples=len(unconfirmed),
                  functions_encoded={os.path.relpath(s, REPO): n for s, n in sorted(b.ir.items()) if s.startswith(REPO)},
                  fp_operations_rewritten=sum(n for s, n in b.fpops.items() if s.startswith(REPO)),
                  entry_points=cfg.get("entry", []), cases=per_case, path_ends=status_count, paths_started=tot["paths"],
                  solver_queries=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"],
                  solver_seconds=round(tot["secs"], 2), longest_query_s=round(tot["maxq"], 2), assertions_evaluated=tot["checks"],
                  assertions_discharged=tot["discharged"], of_which_by_simplification=tot["trivial"], branch_decisions=tot["branches"],
                  float_to_int_splits=tot["concretised"], terms=tot["nodes"], native_disagreements=disagree, native_failures=natfail,
                  native_runs_skipped_by_rounding=skipped, disagreements=disagreements, undecided=sorted(set(undecided))[:20], build_s=round(tbuild, 2)),
              assumptions=cfg.get("assumptions", []) + COMMON_ASSUMPTIONS)
    if only is None:
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: paths=%d checks=%d discharged=%d queries=%d unknown=%d solver=%.1fs validated=%d disagree=%d build=%.1fs wall=%.1fs -> %s" % (
        pid, cfg["title"], tot["done"], tot["checks"], tot["discharged"], tot["queries"], tot["unknown"], tot["secs"], validated, disagree, tbuild,
        time.time() - t0, {0: "held", 1: "VIOLATED", 2: "NO VERDICT"}[rc]))
    if verbose:
        print(status_count)
    return rc


COMMON_ASSUMPTIONS = [
    "symbolic doubles are exact reals: rounding, overflow and underflow of symbolic arithmetic are outside the claim (concrete arithmetic is native IEEE)",
    "bounds: particle counts, boxes and parameter values as listed per case; nothing is claimed outside them",
    "trusted: clang -O1 lowering, engine/rewrite.py and engine/runtime.cpp (validated per run by native replays), z3 / cvc5",
]


def replay(pid, path):
    x = json.load(open(path))
    cfg = CHECKS[pid]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = Builder(work, cfg.get("omp", False))
        _, nat, san = b.build(cfg["harness"], cfg.get("extra", []), True)
        for n, binary in (("native", nat), ("sanitized", san)):
            print(n, json.dumps(native(binary, x["case"], x["inputs"], work, n), indent=1))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for h in sorted({c["harness"] for c in CHECKS.values()}):
            b = Builder(work, any(c.get("omp") for c in CHECKS.values() if c["harness"] == h))
            ex = sorted({e for c in CHECKS.values() if c["harness"] == h for e in c.get("extra", [])})
            b.build(h, ex, any(c.get("san") for c in CHECKS.values() if c["harness"] == h))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        setup()
        sys.exit(0)
    pid = a[0]
    if "--replay" in a:
        replay(pid, a[a.index("--replay") + 1])
        sys.exit(0)
    try:
        sys.exit(run_property(pid, a[a.index("--case") + 1] if "--case" in a else None, "--verbose" in a))
    except Fail as e:
        print("BUILD ERROR", e)
        sys.exit(2)
