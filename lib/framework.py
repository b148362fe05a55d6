"""Runs a property's check: scenarios in, three-valued verdicts out, evidence and replay files."""
import hashlib, json, os, random, sys, threading, time, traceback
import build, sim

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


class Violation(Exception):
    """raised by an oracle: the history refutes the property"""
    def __init__(self, what, sig=None):
        Exception.__init__(self, what)
        self.what, self.sig = what, sig or what


class Inconclusive(Exception):
    pass


def expect(cond, what, sig=None):
    if not cond:
        raise Violation(what if isinstance(what, str) else what(), sig)


def enc(o):
    if isinstance(o, bytes):
        return o.decode("utf-8", "backslashreplace")
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, tuple):
        return list(o)
    return repr(o)


class Ctx:
    def __init__(self, prop, tier, seed, level, rule, technique=""):
        self.prop, self.tier, self.seed, self.level, self.rule = prop, tier, seed, level, rule
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.scratch = sim.Scratch()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples, self.extra, self.counts = [], {}, {}
        self.inconclusive = []
        self.viol = {}
        self.known_hits = set()
        self.assumptions = []
        self.t0 = time.time()
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))
        self.exhaustive = None
        self.known = load_known(prop)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def sub(self, *k):
        """an independent deterministic generator"""
        return random.Random("%s/%d/%s" % (self.prop, self.seed, "/".join(map(str, k))))

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def saw(self, key, sample=None, nontrivial=True, n=1):
        """one evaluation; `key` is what makes it distinct"""
        with self.lock:
            self.evaluations += n
            if nontrivial:
                k = key if isinstance(key, str) else json.dumps(key, default=enc, sort_keys=True)
                self.distinct.add(hashlib.blake2b(k.encode("utf-8", "replace"), digest_size=12).digest())
            if sample is not None and (len(self.samples) < 6):
                self.samples.append(sample)

    def violate(self, what, replay, sig=None):
        with self.lock:
            sig = sig or what
            for k in self.known:
                if k == sig:
                    self.known_hits.add(k)
                    return
            if sig in self.viol:
                self.viol[sig][2] += 1
            elif len(self.viol) < 40:
                self.viol[sig] = [what, replay, 1]

    def incon(self, why):
        with self.lock:
            self.inconclusive.append(why)

    # ---- the ordinary shape: cases run on a pool of sims ----
    def run_cases(self, so, cases, build_fn, judge, exe=None, n=None, confirm=True, until=None, **kw):
        """For each case: scenario, ctx = build_fn(case, dir); judge(case, scenario, result) raises Violation."""
        deadline = until and time.time() + until

        def once(s, case):
            d = self.scratch.new()
            try:
                sc = build_fn(case, d)
                r = s.run(sc)
                if r.inconclusive:
                    raise Inconclusive("watchdog" if r.watchdog else "event log overflow")
                p = r.of("prior")
                if p:
                    self.count("after an approved session" if p[0]["met"] and sc.prior[1] in (b"y", b"Y") else "after a refused session" if p[0]["met"] else "after an unpaired session")
                judge(case, sc, r)
                return sc, r
            except Violation as v:
                v.replay = {"case": case if not hasattr(case, "__dict__") else case.__dict__, "scenario": sc.text(), "history": brief(r), "plugin": os.path.relpath(so, VERIF)}
                raise
            finally:
                self.scratch.done(d)

        def one(s, case):
            if (deadline and time.time() > deadline) or len(self.viol) >= 20 or sum(v[2] for v in self.viol.values()) >= 60:
                return
            for attempt in range(3):
                try:
                    once(s, case)
                    return
                except Violation as v:
                    first = v
                    break
                except Inconclusive as e:
                    self.incon(str(e))
                    return
                except sim.SimDied as e:
                    if attempt == 2:
                        self.incon("sim died: %s" % e)
                        return
            if confirm:   # the tracer makes a scenario repeatable: a verdict must come out twice
                for _ in range(2):
                    try:
                        once(s, case)
                    except Violation as v:
                        if v.sig == first.sig:
                            self.violate(v.what, v.replay, v.sig)
                            return
                        first = v
                    except (Inconclusive, sim.SimDied):
                        pass
                self.incon("not reproduced: " + first.what)
                return
            self.violate(first.what, first.replay, first.sig)
        pool = sim.Pool(exe or build.sim(), so, n or self.jobs, **kw)
        return pool.map(one, cases)

    def finish(self):
        self.scratch.close()
        os.makedirs(EVID, exist_ok=True)
        for k in sorted(self.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        nv = 0
        for i, (sig, (what, replay, cnt)) in enumerate(list(self.viol.items())[:8]):
            p = os.path.join(EVID, "replay-%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "signature": sig, "times_seen": cnt, "seed": self.seed, "tier": self.tier, "witness": replay}, f, indent=1, default=enc)
            print("  %s (seen %d times)" % (what if len(what) < 3000 else what[:1500] + " [...] " + what[-1400:], cnt))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            nv += 1
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": json.loads(json.dumps(self.samples, default=enc))[:6], "observed": self.counts, "inconclusive": len(self.inconclusive)}
        if self.inconclusive:
            cov["inconclusive_reasons"] = sorted(set(self.inconclusive))[:8]
        cov.update(self.extra)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        s = json.dumps(ev, indent=1, default=enc)
        while len(s) > 60000 and cov["samples"]:
            cov["samples"].pop()
            s = json.dumps(ev, indent=1, default=enc)
        tmp = os.path.join(EVID, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            f.write(s + "\n")
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d inconclusive, %d violations, %.1fs; observed %s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.inconclusive), len(self.viol), time.time() - self.t0,
            json.dumps(self.counts, sort_keys=True)))
        if self.viol:
            return 1
        if self.evaluations == 0 or (len(self.inconclusive) > 0.5 * max(1, self.evaluations)):
            print("INCONCLUSIVE: too few conclusive executions: %r" % sorted(set(self.inconclusive))[:5])
            return 3
        return 0


def brief(r):
    return {"code": r.code, "sig": r.sig, "stuck": r.stuck, "events": r.ev[:400], "snapshots": r.snaps[:100], "trace": r.tr[:400]}


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out
