"""Runs cases of one check inside the sanitized interpreter (spawned by driver.py)."""
import hashlib, importlib, json, os, random, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.set_int_max_str_digits(0)


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(key + ": " + msg)
        self.key, self.msg = key, msg


class Case:
    """One generated case: a seeded source of choices plus the record of what was observed."""

    def __init__(self, prop, seed, fam, idx, tier):
        self.prop, self.seed, self.fam, self.idx, self.tier = prop, seed, fam, idx, tier
        self.rng = random.Random("%s/%s/%s/%d" % (seed, prop, fam, idx))
        self.viol = []
        self.evals = 0
        self.shape = None
        self.nontrivial = False
        self.desc = None

    def describe(self, text, nontrivial=True):
        """What this case exercises (also what distinguishes it from other cases)."""
        self.desc = (self.desc + " ; " if self.desc else "") + str(text)
        self.nontrivial = self.nontrivial or nontrivial

    def fail(self, key, msg):
        """Record a violation and go on with the case."""
        if len(self.viol) < 20:
            self.viol.append((key, str(msg)[:1500]))

    def check(self, cond, key, msg=""):
        self.evals += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def call(self, key, fn, *a, **k):
        """A call that the property says must succeed."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(key + ".raises." + type(e).__name__, "%s" % e)


def main():
    spec = json.loads(sys.argv[1])
    prop, seed, tier = spec["prop"], spec["seed"], spec["tier"]
    mod = importlib.import_module(spec["module"])
    fams = {f: (fn, n) for f, fn, n in mod.families(tier)}
    out = open(spec["out"], "a", buffering=1)
    for fam, idx in spec["cases"]:
        c = Case(prop, seed, fam, idx, tier)
        out.write(json.dumps({"b": [fam, idx]}) + "\n")
        t0 = time.time()
        err = None
        try:
            fams[fam][0](c)
        except Violation as v:
            c.viol.append((v.key, v.msg[:1500]))
        except (SyntaxError, NameError, ImportError, AssertionError):
            err = traceback.format_exc()[-3000:]
        except Exception as e:  # noqa: BLE001
            # nothing in a case is expected to raise: what does so here does not on the unchanged tree
            c.viol.append(("raises." + type(e).__name__, traceback.format_exc()[-1500:]))
        desc = c.desc or ""
        out.write(json.dumps({"e": [fam, idx], "n": c.evals, "v": c.viol, "err": err, "nt": c.nontrivial,
                              "h": hashlib.sha1((fam + desc).encode()).hexdigest()[:16],
                              "d": desc[:400], "t": round(time.time() - t0, 3)}) + "\n")
    out.write(json.dumps({"done": 1}) + "\n")
    out.close()
    if spec.get("extra"):
        pass
    # Skip interpreter tear-down: only calls made by the cases are judged.
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
