"""Runs one check: build, shards of cases, verdict, known findings, evidence."""
import importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build  # noqa: E402


class _Stub:
    """Stands for roughpy/numpy while the driver reads a check module's metadata."""
    __path__ = []

    def __getattr__(self, n):
        if n in ("__spec__", "__loader__", "__file__", "__all__"):
            raise AttributeError(n)
        return _Stub()

    def __call__(self, *a, **k):
        return _Stub()

    def __or__(self, o):
        return self


for _n in ("roughpy", "roughpy.streams", "numpy"):
    sys.modules.setdefault(_n, _Stub())

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
HANG_S = 90          # no progress on one case for this long: stop it, retry it alone once
HANG_RETRY_S = 180


def known_findings(prop):
    """Lines 'known: property=<id> key=<exact key> <what fails>'."""
    res = {}
    try:
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return res


_FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (?:/\S*?)?((?:\.build/src/|/harness/)\S+?)(?::\d+)*(?: .*)?$")


def crash_key(err, rc):
    """A stable description of a sanitizer report or fatal signal."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        kind = "asan." + m.group(1).rstrip(":")
    m2 = re.search(r"([^\s:]+):\d+:\d+: runtime error: (.*)", err)
    if not kind and m2:
        kind = "ubsan." + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|\d+", "", m2.group(2).lower()))[:40].strip("-")
    m3 = re.search(r"LeakSanitizer: detected memory leaks", err)
    if not kind and m3:
        kind = "leak"
    m4 = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", err)
    if not kind and m4:
        kind = "tsan." + m4.group(1).replace(" ", "-")
    if not kind:
        kind = "signal.%d" % (-rc) if rc < 0 else "exit.%d" % rc
        if "terminate called" in err:
            kind = "terminate"
    fn = ""
    for line in err.splitlines():
        m = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.*) (\S+)$", line)
        if m and ("/.build/src/" in m.group(2)):
            f = m.group(2).split("/.build/src/")[1]
            fn = re.sub(r":\d+.*$", "", f)
            break
    return kind + ("@" + fn if fn else "")


class Shard:
    def __init__(self, spec, env, tmp, n, prog=None):
        self.spec, self.env, self.tmp, self.n, self.prog = spec, env, tmp, n, prog
        self.pending = list(spec["cases"])
        self.results, self.viol, self.errors = [], [], []
        self.restarts = 0
        self.retry_hang = None
        self.start()

    def start(self, hang_limit=HANG_S):
        self.gen = getattr(self, "gen", 0) + 1
        self.out = os.path.join(self.tmp, "out%d.%d" % (self.n, self.gen))
        self.errf = os.path.join(self.tmp, "err%d.%d" % (self.n, self.gen))
        open(self.out, "w").close()
        spec = dict(self.spec, cases=self.pending, out=self.out)
        self.fh = open(self.errf, "wb")
        specf = os.path.join(self.tmp, "spec%d.%d" % (self.n, self.gen))
        if self.prog:
            with open(specf, "w") as f:
                f.write("%s\n%s\n%s\n" % (self.out, spec["seed"], spec["tier"]))
                f.writelines("%s %d\n" % tuple(c) for c in self.pending)
            cmd = [self.prog, specf]
        else:
            json.dump(spec, open(specf, "w"))
            cmd = [build.VENV, os.path.join(VERIF, "lib", "bootstrap.py"), specf]
        self.p = subprocess.Popen(cmd,
                                  env=self.env, stdout=self.fh, stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, cwd=self.tmp, start_new_session=True)
        self.last_size, self.last_t = -1, time.time()
        self.hang_limit = hang_limit
        self.finished = False

    def poll(self):
        if self.finished:
            return True
        rc = self.p.poll()
        if rc is None:
            sz = os.path.getsize(self.out)
            if sz != self.last_size:
                self.last_size, self.last_t = sz, time.time()
            elif time.time() - self.last_t > self.hang_limit:
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                self.p.wait()
                self.collect("hang", 0)
            return self.finished
        self.collect("exit", rc)
        return self.finished

    def collect(self, why, rc):
        self.fh.close()
        begun, ended, done = None, set(), False
        for line in open(self.out):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "b" in r:
                begun = tuple(r["b"])
            elif "e" in r:
                ended.add(tuple(r["e"]))
                self.results.append(r)
                begun = None
                for k, msg in r["v"]:
                    self.viol.append(dict(key=k, msg=msg, fam=r["e"][0], idx=r["e"][1]))
                if r["err"]:
                    self.errors.append("%s: %s" % (r["e"], r["err"]))
            elif "done" in r:
                done = True
        if done:
            self.finished = True
            return
        err = open(self.errf, "rb").read().decode(errors="replace")
        if begun is None:
            # died outside any case: interpreter or harness trouble
            self.errors.append("worker died outside a case (%s rc=%s): %s" % (why, rc, err[-2000:]))
            self.finished = True
            return
        rest = [c for c in self.pending if tuple(c) not in ended]
        if why == "hang" and self.retry_hang != begun:
            self.retry_hang = begun          # once more, first, with a larger limit
            self.pending = [list(begun)] + [c for c in rest if tuple(c) != begun]
            self.start(HANG_RETRY_S)
            return
        if why == "hang":
            key = "hang"
            msg = "no result within %d s, twice" % HANG_RETRY_S
        else:
            key = "crash." + crash_key(err, rc)
            msg = err[-6000:]
        self.viol.append(dict(key=key, msg=msg, fam=begun[0], idx=begun[1], crash=True))
        self.pending = [c for c in rest if tuple(c) != begun]
        self.restarts += 1
        if self.restarts > 12 or not self.pending:
            self.finished = True
            return
        self.start()


def run_shards(make, cases, jobs):
    """Spread cases over processes made by make(cases, tmp, k)."""
    jobs = jobs or min(os.cpu_count() or 8, max(1, len(cases)))
    tmp = tempfile.mkdtemp(prefix="vp_run_")
    try:
        shards = [make(cases[k::jobs], tmp, k) for k in range(jobs) if cases[k::jobs]]
        while not all([s.poll() for s in shards]):
            time.sleep(0.05)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return shards


def counted(mod, tier, fams):
    # modules state base counts; SCALE is what the quick tier can afford
    k = getattr(mod, "SCALE", 1)
    fixed = getattr(mod, "FIXED", ())
    return [[f, i] for f, n in fams for i in range(n if f in fixed else n * k)]


def run_python_cases(prop, module, seed, tier, only=None, jobs=None):
    env = build.py_env()
    env["VERIF_SEED"], env["VERIF_TIER"] = str(seed), tier
    mod = importlib.import_module(module)
    fams = [(f, n) for f, _fn, n in mod.families(tier)]
    cases = counted(mod, tier, fams)
    if only is not None:
        cases = [list(only)] if only[0] in dict(fams) else []
    return run_shards(lambda cs, tmp, k: Shard(dict(prop=prop, module=module, seed=seed, tier=tier, cases=cs), env, tmp, k), cases, jobs)


def run_native_cases(prop, mod, seed, tier, only=None):
    """mod.programs(tier): [(program, build, [(family, count)], jobs)]"""
    shards = []
    for prog, kind, fams, jobs in mod.programs(tier):
        b = build.ensure(kind, ["vp_" + prog])
        print("build: %s vp_%s up to date in %.1f s" % (kind, prog, b["seconds"]))
        sys.stdout.flush()
        cases = counted(mod, tier, fams)
        if only is not None:
            cases = [list(only)] if only[0] in dict(fams) else []
        exe = build.find_program(b["dir"], "vp_" + prog)
        env = build.bin_env(kind)
        shards += run_shards(lambda cs, tmp, k: Shard(dict(prop=prop, seed=seed, tier=tier, cases=cs), env, tmp, k, exe), cases, jobs)
    return shards


def run_check(prop, module=None, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    module = module or prop.lower()
    mod = importlib.import_module(module)
    viol, errors, results, cov = [], [], [], {}
    try:
        shards = []
        if hasattr(mod, "families"):
            b = build.ensure("asan", ["RoughPy_PyModule"])
            print("build: asan python module up to date in %.1f s" % b["seconds"])
            sys.stdout.flush()
            shards = run_python_cases(prop, module, seed, tier, only)
        if hasattr(mod, "programs"):
            shards += run_native_cases(prop, mod, seed, tier, only)
        for s in shards:
            viol += s.viol
            errors += s.errors
            results += s.results
    except build.BuildError as e:
        print("BUILD-ERROR " + str(e))
        return 2
    known = known_findings(prop)
    reported, hit = [], {}
    for v in viol:
        if v["key"] in known:
            hit.setdefault(v["key"], v)
        else:
            reported.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    hs = {r["h"] for r in results if r.get("nt")}
    evals = sum(r["n"] for r in results)
    fam_counts = {}
    for r in results:
        fam_counts[r["e"][0]] = fam_counts.get(r["e"][0], 0) + 1
    # one sample per family, then some more
    samples, seen = [], {}
    for r in results:
        if r["d"] and seen.setdefault(r["e"][0], 0) < 2:
            seen[r["e"][0]] += 1
            samples.append("%s[%d]: %s" % (r["e"][0], r["e"][1], r["d"]))
    cov = dict(evaluations=evals, distinct_nontrivial=len(hs), rule=mod.RULE,
               samples=samples[:40], cases_run=len(results), cases_per_family=fam_counts,
               slowest_case_s=max([r["t"] for r in results] or [0]))
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
                  violations=len(reported))
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct non-trivial, %.1f s"
          % (prop, tier, seed, len(results), evals, len(hs), time.time() - t0))
    if reported:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen_keys = {}
        for v in reported:
            if v["key"] in seen_keys:
                seen_keys[v["key"]] += 1
                continue
            seen_keys[v["key"]] = 1
            path = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:80]))
            json.dump(dict(property=prop, module=module, seed=seed, tier=tier, fam=v["fam"], idx=v["idx"],
                           key=v["key"], msg=v["msg"]), open(path, "w"), indent=1)
            if len(seen_keys) <= 15:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  key=%s case=%s[%s]" % (v["key"], v["fam"], v["idx"]))
                print("  " + v["msg"][:(6000 if verbose else 700)].replace("\n", "\n  "))
        print("violating keys: " + ", ".join("%s x%d" % kv for kv in sorted(seen_keys.items())[:40]))
        for e in errors[:3]:
            print("HARNESS-ERROR " + e)
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS-ERROR " + e)
        return 3
    if only is None and len(results) < getattr(mod, "MIN_CASES", 1):
        print("INCONCLUSIVE: only %d cases ran" % len(results))
        return 4
    return 0
