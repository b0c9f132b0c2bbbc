#!/usr/bin/env python3
"""Runs the runtime monitors that decide one property.

  check.py <ID> [--tier quick|thorough] [--seed N]     run the check
  check.py --replay <file>                             re-run a recorded violation
  check.py --setup                                     check the tools

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: no verdict (build error, harness error, nothing observed)."""
import fcntl, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
BACKENDS = ("cuda", "hip", "sycl")
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)
from plan import PLAN, ASSUME  # noqa: E402

GXX = "/usr/bin/g++"
# GCC 13 loses track of pointers returned inside small structures across calls (seen with static_vector::insert at -O1),
# and then takes equal pointers to be different; that is the work of ipa-modref.
COMMON = ["-std=c++17", "-Wall", "-Wno-unused", "-pthread", "-fno-ipa-modref"]
VARIANTS = {
    # memory and undefined-behaviour sanitizers, assertions on
    "asan": [GXX, "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=returns-nonnull-attribute"],
    # what users run: optimised, assertions off
    "opt": [GXX, "-O2", "-DNDEBUG"],
    # race detector, assertions off (as in the release build)
    "tsan": [GXX, "-O1", "-g1", "-fsanitize=thread", "-DNDEBUG"],
    # race detector with assertions on
    "tsandbg": [GXX, "-O1", "-g1", "-fsanitize=thread"],
    # C++20: atomic references come from the standard library
    "tsan20": [GXX, "-O1", "-g1", "-fsanitize=thread", "-DNDEBUG", "-std=c++20"],
    "asan20": [GXX, "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=returns-nonnull-attribute", "-std=c++20"],
}
DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_SOURCE_DIR_LENGTH=0", "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE",
        "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF", "-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC"]
# The other configurations of the library's own build-time switches.
EXTRA_DEFS = {
    "asan_portable": ("asan", ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_SOURCE_DIR_LENGTH=0", "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE",
                               "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF"]),
    # all debug messages of the library are made
    "asan_verbose": ("asan", ["-DVECMEM_DEBUG_MSG_LVL=5", "-DVECMEM_PRINTF=vm_say", "-include", os.path.join(HARN, "say.h")] + DEFS[1:]),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=48:max_allocation_size_mb=4096:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
}


class NoVerdict(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash():
    h = hashlib.sha256()
    for base in ["%s/%s" % (m, d) for m in ("core",) + BACKENDS for d in ("include", "src")]:
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:20]


def cache_dir():
    c = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(c, exist_ok=True)
        t = os.path.join(c, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return c
    except OSError:
        return tempfile.mkdtemp(prefix="vmcache")


def prune(cache, keep):
    """Keep the cache small: the builds of the current tree and a few others."""
    try:
        ds = [os.path.join(cache, d) for d in os.listdir(cache) if d.startswith("b-")]
        ds.sort(key=os.path.getmtime, reverse=True)
        now = time.time()
        for d in ds[4:]:
            if d != keep and now - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


class Builder:
    def __init__(self):
        self.cache = cache_dir()
        self.tree = tree_hash()
        self.dir = os.path.join(self.cache, "b-" + self.tree)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        prune(self.cache, self.dir)
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(os.path.join(self.gen, "vecmem"), exist_ok=True)
        self.put(os.path.join(self.gen, "vecmem", "vecmem_core_export.hpp"),
                 "#pragma once\n#define VECMEM_CORE_EXPORT\n#define VECMEM_CORE_NO_EXPORT\n#define VECMEM_CORE_DEPRECATED\n")
        for m in BACKENDS:
            self.put(os.path.join(self.gen, "vecmem", "vecmem_%s_export.hpp" % m), "#pragma once\n#define VECMEM_%s_EXPORT\n" % m.upper())
        self.put(os.path.join(self.gen, "vecmem", "version.hpp"),
                 "#pragma once\n#define VECMEM_VERSION_MAJOR 0\n#define VECMEM_VERSION_MINOR 0\n#define VECMEM_VERSION_PATCH 0\n"
                 "#define VECMEM_VERSION \"0\"\nnamespace vecmem { static constexpr int version_major = 0; static constexpr int version_minor = 0;"
                 " static constexpr int version_patch = 0; static constexpr char version[] = \"0\"; }\n")

    @staticmethod
    def put(path, text):
        if not os.path.exists(path):
            t = path + ".%d.%d" % (os.getpid(), threading.get_ident())
            with open(t, "w") as f:
                f.write(text)
            os.replace(t, path)

    def flags(self, variant):
        base, defs = variant, DEFS
        if variant in EXTRA_DEFS:
            base, defs = EXTRA_DEFS[variant]
        v = VARIANTS[base]
        cmd = [v[0]] + COMMON + v[1:] + defs
        cmd += ["-I" + self.gen, "-I" + os.path.join(REPO, "core/include"), "-I" + HARN]
        return cmd

    def compile(self, cmd, src, tag, shim=False):
        key = sha(" ".join(cmd), src, self.harness_hash(src), self.shim_hash() if shim or any("shim" in c for c in cmd) else "")
        obj = os.path.join(self.dir, "%s-%s.o" % (tag, key))
        if os.path.exists(obj):
            return obj
        with open(obj + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(obj):
                return obj
            tmp = obj + ".tmp.o"
            r = subprocess.run(cmd + (["-x", "c++"] if src.endswith(".sycl") else []) + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode != 0:
                raise NoVerdict("does not compile: %s\n%s" % (src, "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:3000] or r.stderr[:3000]))
            os.replace(tmp, obj)
        return obj

    def harness_hash(self, src):
        if not src.startswith(HARN):
            return ""
        h = hashlib.sha256(open(src, "rb").read())
        for f in sorted(os.listdir(HARN)):
            if f.endswith(".hpp"):
                h.update(open(os.path.join(HARN, f), "rb").read())
        return h.hexdigest()

    @staticmethod
    def shim_hash():
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(os.path.join(HARN, "shim"))):
            for f in sorted(fs):
                h.update(f.encode() + open(os.path.join(d, f), "rb").read())
        return h.hexdigest()

    def lib_sources(self, module="core", polyfill=False):
        out = []
        for d, _, fs in sorted(os.walk(os.path.join(REPO, module, "src"))):
            for f in sorted(fs):
                if f.endswith((".cpp", ".sycl")) and (polyfill or "polyfill" not in f):
                    out.append(os.path.join(d, f))
        return out

    def build(self, harness, variant, pool, extra=(), parts=1, backends=False, defs=(), polyfill=False):
        """extra: for the harness only; defs: for the back ends' sources, too."""
        lib_flags = self.flags(variant)
        shim = ["-I" + os.path.join(HARN, "shim")] + ["-I" + os.path.join(REPO, m, "include") for m in BACKENDS] + list(defs) if backends else []
        flags = lib_flags + shim + list(extra)
        futs = []
        for k in range(parts):
            cut = ["-DVM_PARTS=%d" % parts, "-DVM_PART=%d" % k] if parts > 1 else []
            futs.append(pool.submit(self.compile, flags + cut, os.path.join(HARN, harness), "h-" + harness + "-" + variant, backends))
        for s in self.lib_sources(polyfill=polyfill):
            futs.append(pool.submit(self.compile, lib_flags, s, "l-" + os.path.basename(s) + "-" + variant))
        for s in [x for m in BACKENDS for x in self.lib_sources(m)] if backends else ():
            futs.append(pool.submit(self.compile, lib_flags + shim, s, "l-" + os.path.basename(s) + "-" + variant, True))
        objs = [f.result() for f in futs]
        exe = os.path.join(self.dir, "x-" + harness + "-" + variant + "-" + sha(*objs))
        if not os.path.exists(exe):
            with open(exe + ".lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                if not os.path.exists(exe):
                    r = subprocess.run(flags + objs + ["-o", exe + ".tmp"], capture_output=True, text=True)
                    if r.returncode != 0:
                        raise NoVerdict("does not link: %s\n%s" % (harness, r.stderr[:3000]))
                    os.replace(exe + ".tmp", exe)
        return exe


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def headline(err):
    for pat in (r"VMFAIL tag=\S+ case=\d+ msg=(.*)", r"([^\n]*Assertion [^\n]*failed[^\n]*)",
                r"([^\n]*runtime error: [^\n]*)", r"(WARNING: ThreadSanitizer: [^\n]*)", r"(ERROR: AddressSanitizer: \S+[^\n]{0,80})", r"(terminate called[^\n]*(?:\n[^\n]*what\(\)[^\n]*)?)"):
        m = re.search(pat, err)
        if m:
            return m.group(1).replace("\n", " ")[:400]
    return ""


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vmrun-")
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.violation = None
        self.errors = []
        self.known_hits = {}
        self.counters, self.hashes, self.samples, self.evals = {}, set(), [], 0
        self.known = known_findings(prop)
        self.deadline = time.time() + (700 if tier == "quick" else 7200)
        self.skipped = 0

    def env(self):
        e = dict(os.environ)
        e.update(ENV)
        # costly where exceptions are thrown a lot, so only where references
        # and deferred work matter
        e["ASAN_OPTIONS"] += ":detect_stack_use_after_return=%d" % (1 if PLAN[self.prop].get("uar") else 0)
        e["MALLOC_ARENA_MAX"] = "4"
        return e

    def once(self, exe, variant, first, count, hang_s):
        base = os.path.join(self.tmp, "%s-%d-%d" % (variant, first, time.time_ns()))
        prog, stats, errf = base + ".p", base + ".s", base + ".e"
        with open(prog, "wb") as f:
            f.write(b"\0" * 64)
        cmd = [exe, "--prop", self.prop, "--seed", str(self.seed), "--first", str(first), "--count", str(count),
               "--stats", stats, "--progress", prog] + (["--thorough"] if self.tier == "thorough" else [])
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=self.env(), cwd=self.tmp, start_new_session=True)
        last, since, hung = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.5 if time.time() - since > 2 else 0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            if self.stop.is_set():
                self.kill(p)
                return ("stopped", None, "")
            with open(prog, "rb") as f:
                now = f.read(16)
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > hang_s:
                hung = True
                self.kill(p)
                break
        with open(prog, "rb") as f:
            case = struct.unpack("<Q", f.read(8))[0]
        with open(errf, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 60000))
            err = f.read().decode("utf-8", "replace")
        if hung:
            return ("hang", case, err)
        if p.returncode == 0:
            with open(stats) as f:
                s = json.load(f)
            with self.lock:
                self.evals += s["evaluations"]
                for k, v in s["counters"].items():
                    if k.startswith("max:"):
                        self.counters[k] = max(self.counters.get(k, 0), v)
                    else:
                        self.counters[k] = self.counters.get(k, 0) + v
                self.hashes.update(s["hashes"])
                if len(self.samples) < 4:
                    self.samples += [variant + " " + x for x in s["samples"][:1]]
            for q in (prog, stats, errf):
                os.unlink(q)
            return ("ok", None, "")
        if p.returncode == 3:
            return ("error", case, err)
        if p.returncode == -signal.SIGKILL:
            return ("killed", case, err)
        return ("fail", case, err + "\n(exit status %d)" % p.returncode)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def report(self, exe, variant, case, err, head, run):
        for rx, what in self.known:
            if rx.search(head):
                with self.lock:
                    self.known_hits[what] = self.known_hits.get(what, 0) + 1
                return True
        with self.lock:
            if self.violation:
                return False
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-seed%d-case%s.txt" % (self.prop, variant, self.seed, case))
            with open(path, "w") as f:
                f.write(json.dumps({"property": self.prop, "harness": run["src"], "variant": variant, "defs": list(run.get("defs", ())), "flags": list(run.get("flags", ())), "seed": self.seed, "case": case,
                                    "tier": self.tier, "what": head}) + "\n\n" + err + "\n")
            self.violation = (path, head)
        self.stop.set()
        return False

    def chunk(self, exe, variant, first, count, run, hang_s=90):
        a, b = first, first + count
        retried = False
        while a < b and not self.stop.is_set():
            if time.time() > self.deadline:
                with self.lock:
                    self.skipped += b - a
                return
            kind, case, err = self.once(exe, variant, a, b - a, hang_s)
            if kind in ("ok", "stopped"):
                return
            if kind == "error":
                with self.lock:
                    self.errors.append(err[-2000:])
                self.stop.set()
                return
            if kind == "killed":
                if retried:
                    with self.lock:
                        self.errors.append("a harness process was killed twice (out of memory?)")
                    self.stop.set()
                    return
                retried = True
                continue
            if kind == "hang":
                # Once more, alone and with more time, before calling it a hang.
                k2, c2, e2 = self.once(exe, variant, case, 1, 2 * hang_s)
                if k2 == "ok":
                    a = case + 1
                    continue
                if k2 == "stopped":
                    return
                if k2 == "hang":
                    err, head = e2, "hang: no progress in case %d, twice" % case
                else:
                    err, head = e2, headline(e2) or "abnormal exit"
            else:
                head = headline(err) or "abnormal exit: " + err.strip().splitlines()[-1]
            if self.report(exe, variant, case, err, head, run):
                a = case + 1
                continue
            return


def run_check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    r = Runner(prop, tier, seed)
    try:
        b = Builder()
        jobs = []
        with ThreadPoolExecutor(NCPU) as cpool, ThreadPoolExecutor(8) as bpool:
            futs = []
            for run in plan["runs"]:
                n = run["quick"] if tier == "quick" else run["thorough"]
                if n:
                    futs.append((run, n, bpool.submit(b.build, run["src"], run["variant"], cpool, run.get("flags", ()), run.get("parts", 1), run.get("backends", False), run.get("defs", ()), run.get("polyfill", False))))
            built = [(run, n, f.result()) for run, n, f in futs]
        tb = time.time() - t0
        for run, n, exe in built:
            par = run.get("par", NCPU)
            per = max(1, min(-(-n // (par * 3)), run.get("chunk", 10 ** 9)))
            off = 0
            while off < n:
                k = min(per, n - off)
                jobs.append((exe, run["variant"], off, k, run, run.get("hang", 90), par))
                off += k
        # multi-threaded workloads run fewer processes at a time
        for par in sorted({j[6] for j in jobs}, reverse=True):
            with ThreadPoolExecutor(par) as pool:
                for f in [pool.submit(r.chunk, *j[:6]) for j in jobs if j[6] == par]:
                    f.result()
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    if r.errors and not r.violation:
        raise NoVerdict("harness error: " + r.errors[0])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r.evals, "distinct_nontrivial": len(r.hashes), "rule": plan["rule"],
            "samples": r.samples or ["(stopped before a chunk completed)"],
            "observed": {k: v for k, v in sorted(r.counters.items())},
            "builds": sorted({run["variant"] for run in plan["runs"]}),
            "build_s": round(tb, 1), "cases_skipped_at_deadline": r.skipped,
        },
        "assumptions": ASSUME + plan.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if r.violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for what, n in sorted(r.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, what, n))
    if r.violation:
        print("%s: %s" % (prop, r.violation[1]))
        print("VIOLATION property=%s replay=%s" % (prop, r.violation[0]))
        return 1
    low = [(k, v, r.counters.get(k, 0)) for k, v in plan.get("need", {}).items() if r.counters.get(k, 0) < v]
    if low or not r.hashes:
        raise NoVerdict("too little was observed: %s" % (low or "no non-trivial case"))
    print("%s held: %d cases (%d distinct), %.1f s (build %.1f s)" % (prop, r.evals, len(r.hashes), time.time() - t0, tb))
    return 0


def replay(path):
    info = json.loads(open(path).readline())
    b = Builder()
    with ThreadPoolExecutor(NCPU) as pool:
        flags = [(run.get("flags", ()), run.get("parts", 1), run.get("backends", False), run.get("defs", ()), run.get("polyfill", False)) for run in PLAN[info["property"]]["runs"] if run["src"] == info["harness"] and run["variant"] == info["variant"] and list(run.get("defs", ())) == info.get("defs", []) and list(run.get("flags", ())) == info.get("flags", [])]
        exe = b.build(info["harness"], info["variant"], pool, *(flags[0] if flags else ()))
    e = dict(os.environ)
    e.update(ENV)
    cmd = [exe, "--prop", info["property"], "--seed", str(info["seed"]), "--first", str(info["case"]), "--count", "1", "--verbose"]
    if info["tier"] == "thorough":
        cmd.append("--thorough")
    return subprocess.run(cmd, env=e).returncode


def main(argv):
    if argv[:1] == ["--setup"]:
        for t in (GXX,):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("setup ok")
        return 0
    if argv[:1] == ["--replay"]:
        return 1 if replay(argv[1]) else 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    try:
        return run_check(prop, tier, seed)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (prop, e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
