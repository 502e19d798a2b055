"""Common machinery of every check: bounded exhaustive exploration of the real hachoir code.

A check is a list of *domains*.  A domain is a finite, deterministic list of JSON-able cases and a
function run(case, ctx) which explores everything the case stands for (one input, one operation
sequence, or a whole sub-tree of the exploration) on the real code and compares it with an oracle.
Nothing is sampled: every case of every domain is run, or the run is reported as not exhaustive.

Violations are reported with a replay file (replays/<id>-<n>.json); `checks/<id>.py --replay FILE`
runs that one case again.
"""
import gc
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HACHOIR_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["TZ"] = "UTC"
time.tzset()
if REPO not in sys.path:
    sys.path.insert(0, REPO)

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
QUICK_CPU_S = 240        # (at most, for the quick tier)
CASE_CPU_S = 120         # CPU seconds one case may take before it counts as "does not terminate"
MEM_LIMIT = 3 << 30      # address space of one worker


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class HarnessError(BaseException):
    """The harness itself is wrong (never blamed on the code)."""


def _on_timer(signum, frame):
    raise CaseTimeout()


class Ctx(object):
    """Counters and findings of one worker on one batch of cases."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = seed
        self.counts = {}
        self.sets = {}
        self.samples = []
        self.found = []
        self.case = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, item):
        """Record a canonical state/outcome in the named set; True when it is new to this worker."""
        s = self.sets.setdefault(name, set())
        h = hash(item)
        if h in s:
            return False
        s.add(h)
        return True

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def report(self, msg, key=None, **detail):
        """A violation which does not stop the exploration of this case."""
        if sum(1 for f in self.found if f["key"] == key) < (40 if key is None else 5):
            self.found.append({"msg": msg, "key": key, "detail": detail})


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def _jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x[:4096]).hex()}
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    return short(x)


_DOMAINS = None   # set before the pool forks


def in_repo(tb):
    """True when the innermost frames of a traceback are in the code under test."""
    frames = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep) for f in frames)


def run_case(dom, case, ctx):
    """Run one case, turning whatever it raises into a finding. True if it did not end."""
    ctx.case = case
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, dom.cpu_limit)
    try:
        try:
            dom.fn(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        ctx.found.append({"msg": e.msg, "key": e.key, "detail": e.detail})
    except CaseTimeout:
        ctx.found.append({"msg": "does not terminate: more than %s s of CPU on one case" % dom.cpu_limit,
                          "key": None, "detail": {}})
        return True
    except HarnessError:
        raise
    except (MemoryError, RecursionError) as e:
        ctx.found.append({"msg": "%s in the code under test" % type(e).__name__, "key": None, "detail": {}})
    except Exception as e:
        tb = traceback.format_exc()
        if in_repo(e.__traceback__):
            ctx.found.append({"msg": "unexpected %s: %s" % (type(e).__name__, short(str(e), 200)),
                              "key": None, "detail": {"traceback": tb}})
        elif isinstance(e, OSError):
            raise
        else:
            # the results can't even be compared
            ctx.found.append({"msg": "unexpected result, %s when it is compared: %s" % (type(e).__name__, short(str(e), 200)),
                              "key": None, "detail": {"traceback": tb}})
    return False


def _worker_init():
    # no SIGPROF surprises before the first case
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, hard))
    except (ValueError, OSError):
        pass
    gc.freeze()


def _worker(job):
    di, lo, hi, tier, seed = job
    dom = _DOMAINS[di]
    ctx = Ctx(tier, seed)
    found = []
    try:
        for i in range(lo, hi):
            ctx.found = []
            t0 = os.times()
            hangs = run_case(dom, dom.cases[i], ctx)
            if os.environ.get("MC_TIME"):
                t1 = os.times()
                with open(os.environ["MC_TIME"], "a", encoding="utf-8") as fp:
                    fp.write("%7.2f %7.2f %7.2f %s %s\n" % (t1[4] - t0[4], t1[0] - t0[0], t1[1] - t0[1], dom.name, short(dom.cases[i], 120)))
            for f in ctx.found:
                f["domain"] = dom.name
                f["case"] = dom.cases[i]
                f["detail"] = _jsonable(f["detail"])
                found.append(f)
            if hangs:
                break
        return di, lo, hi, ctx.counts, ctx.sets, [_jsonable(s) for s in ctx.samples], found, None
    except BaseException:
        return di, lo, hi, ctx.counts, ctx.sets, [], found, traceback.format_exc()


def _alone(job):
    """The result of a job which is run in a process of its own, None if this process dies."""
    mp = multiprocessing.get_context("fork")
    here, there = mp.Pipe(False)

    def child():
        _worker_init()
        there.send(_worker(job))
        there.close()
    p = mp.Process(target=child)
    p.start()
    there.close()
    try:
        r = here.recv()
    except EOFError:
        r = None
    p.join()
    here.close()
    return r, p.exitcode


def alone(jobs):
    for job in jobs:
        r, code = _alone(job)
        if r is not None:
            yield r
            continue
        di, lo, hi, tier, seed = job
        for i in range(lo, hi):
            one = (di, i, i + 1, tier, seed)
            for attempt in range(3):
                r, code = _alone(one)
                if r is not None:
                    yield r
                    break
            else:
                dom = _DOMAINS[di]
                found = [{"msg": "the interpreter was killed (exit code %s)" % code, "key": None, "detail": {}, "domain": dom.name, "case": dom.cases[i]}]
                yield di, i, i + 1, {}, {}, [], found, None


class Domain(object):
    def __init__(self, name, cases, fn, batch=None, cpu_limit=CASE_CPU_S):
        self.name = name
        self.cases = list(cases)
        self.fn = fn
        self.batch = batch
        self.cpu_limit = cpu_limit


class Check(object):
    def __init__(self, prop, level, rule, assumptions=(), states=None, transitions=None, traces=None,
                 evaluations="evaluations", distinct="distinct", bounds=None):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.domains = []
        self.bounds = bounds or {}
        self.exhaustive = True
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.quick = self.tier == "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.names = {"states": states or "states", "transitions": transitions or "transitions",
                      "traces": traces or "traces", "evaluations": evaluations, "distinct": distinct}

    def domain(self, name, cases, fn, **kw):
        self.domains.append(Domain(name, cases, fn, **kw))
        if self.quick:
            self.domains[-1].cpu_limit = min(self.domains[-1].cpu_limit, QUICK_CPU_S)

    # -- known findings -------------------------------------------------------------------
    def known(self):
        out = {}
        path = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(path):
            with open(path) as fp:
                entries = json.load(fp)["findings"]
            for e in entries:
                if e["property"] == self.prop:
                    out[e["key"]] = e
        return out

    def replay(self, path):
        r = json.load(open(path))
        for dom in self.domains:
            if dom.name == r["domain"]:
                ctx = Ctx(r.get("tier", self.tier), self.seed)
                run_case(dom, r["case"], ctx)
                for f in ctx.found:
                    print("REPRODUCED %s: %s" % (f["key"] or "", f["msg"]))
                    print(json.dumps(_jsonable(f["detail"]), indent=1))
                if not ctx.found:
                    print("no violation")
                return 1 if ctx.found else 0
        print("no such domain %s" % r["domain"])
        return 2

    def main(self):
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            sys.exit(self.replay(sys.argv[2]))
        code = self.explore()
        sys.stdout.flush()
        sys.exit(code)

    def explore(self):
        global _DOMAINS
        for i in range(5):
            try:
                os.unlink(os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, i)))
            except OSError:
                pass
        _DOMAINS = self.domains
        jobs = []
        for di, dom in enumerate(self.domains):
            n = len(dom.cases)
            b = dom.batch or max(1, min(2000, (n + NPROC * 12 - 1) // (NPROC * 12)))
            for lo in range(0, n, b):
                jobs.append((di, lo, min(n, lo + b), self.tier, self.seed))
        counts, sets, samples, found, errors = {}, {}, {}, [], []
        percase = {}
        stop = False
        known = self.known()
        if NPROC > 1 and len(jobs) > 1:
            mp = multiprocessing.get_context("fork")
            from concurrent.futures import ProcessPoolExecutor, as_completed
            from concurrent.futures.process import BrokenProcessPool
            ex = ProcessPoolExecutor(NPROC, mp_context=mp, initializer=_worker_init)
            futs = [ex.submit(_worker, j) for j in jobs]
            def results():
                for f in as_completed(futs):
                    if f.cancelled():
                        continue
                    yield f.result()
            def everything():
                done = set()
                try:
                    for r in results():
                        done.add(r[:3])
                        yield r
                except BrokenProcessPool:
                    # a worker was killed: run what is left, each job in a process of its own
                    for r in alone([j for j in jobs if j[:3] not in done]):
                        if stop:
                            break
                        yield r
            it = everything()
        else:
            ex = None
            futs = []
            it = map(_worker, jobs)
        try:
            for di, lo, hi, c, s, sm, fd, err in it:
                dom = self.domains[di]
                for k, v in c.items():
                    counts[k] = counts.get(k, 0) + v
                for k, v in s.items():
                    sets.setdefault(k, set()).update(v)
                samples.setdefault(dom.name, [])
                if len(samples[dom.name]) < 3:
                    samples[dom.name].extend(sm[:3 - len(samples[dom.name])])
                percase[dom.name] = percase.get(dom.name, 0) + hi - lo
                found.extend(fd)
                if err:
                    errors.append((dom.name, err))
                hangs = any("does not terminate" in f["msg"] for f in fd)
                if not stop and (hangs or len([f for f in found if f["key"] not in known]) >= int(os.environ.get("MC_STOP", "30")) or len(errors) > 3):
                    stop = True
                    for f in futs:
                        f.cancel()
        except Exception as e:   # a worker was killed (out of memory, crash of the interpreter)
            errors.append(("pool", "%s: %s" % (type(e).__name__, e)))
        if ex is not None:
            ex.shutdown(wait=True, cancel_futures=True)
        return self.finish(counts, sets, samples, found, errors, percase, stop)

    def finish(self, counts, sets, samples, found, errors, percase, stopped):
        known = self.known()
        new, hits = [], {}
        for f in found:
            if f["key"] is not None and f["key"] in known:
                hits.setdefault(f["key"], f)
            else:
                new.append(f)
        if os.environ.get("MC_DUMP"):
            with open(os.environ["MC_DUMP"], "w") as fp:
                for f in new:
                    fp.write(json.dumps(f) + "\n")
        wall = time.time() - self.t0
        flat_samples = [x for n in samples for x in [{"domain": n, "case": s} for s in samples[n]]]
        cov = {"domains": {d.name: percase.get(d.name, 0) for d in self.domains},
               "bounds": self.bounds, "rule": self.rule, "samples": flat_samples[:12] or ["(none)"],
               "exhaustive": bool(self.exhaustive and not stopped and not errors),
               "counts": dict(counts), "distinct_sets": {k: len(v) for k, v in sets.items()}}
        nm = self.names
        if self.level == "model_checking":
            cov["states"] = len(sets.get(nm["states"], ()))
            cov["transitions"] = counts.get(nm["transitions"], 0)
            cov["traces_validated_against_impl"] = counts.get(nm["traces"], 0)
        else:
            cov["evaluations"] = counts.get(nm["evaluations"], 0)
            cov["distinct_nontrivial"] = len(sets.get(nm["distinct"], ()))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        for key, f in sorted(hits.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, known[key]["what"]))
        if new:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, f in enumerate(new[:5]):
                path = os.path.join("replays", "%s-%d.json" % (self.prop, i))
                f["tier"] = self.tier
                with open(os.path.join(VERIF, path), "w") as fp:
                    json.dump(f, fp, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  [%s] %s%s" % (f["domain"], ("key=%s " % f["key"]) if f["key"] else "", short(f["msg"], 600)))
            if len(new) > 5:
                print("  ... %d violations in all" % len(new))
            for name, e in errors[:1]:
                print("and ERROR in %s:\n%s" % (name, e))
            return 1
        if errors:
            for name, e in errors[:3]:
                print("ERROR in %s:\n%s" % (name, e))
            return 2
        print("OK property=%s tier=%s %s wall=%.1fs" % (
            self.prop, self.tier, " ".join("%s=%s" % kv for kv in sorted(counts.items())), wall))
        for k, v in sets.items():
            print("   distinct %s: %d" % (k, len(v)))
        return 0


# ---------------------------------------------------------------------------------------------
# A deviation-bounded stateless explorer: run(choose) asks for every environment answer with
# choose(n) in 0..n-1; 0 is the default answer.  All executions with at most `bound` departures from
# the default are run (bound None = every execution).

def explore_choices(run, bound=None, limit=None):
    """Yield (choices, result) for each execution within the bound; deterministic replay of prefixes."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        trace = []

        def choose(k, prefix=prefix, trace=trace):
            i = len(trace)
            c = prefix[i] if i < len(prefix) else 0
            if c >= k:
                raise HarnessError("divergence while replaying %r at %d: %d answers" % (prefix, i, k))
            trace.append((c, k))
            return c
        res = run(choose)
        if len(trace) < len(prefix):
            raise HarnessError("divergence while replaying %r: only %d choices" % (prefix, len(trace)))
        n += 1
        yield tuple(c for c, k in trace), res
        if limit is not None and n >= limit:
            return
        dev = sum(1 for c in prefix if c)
        if bound is not None and dev >= bound:
            continue
        for i in range(len(prefix), len(trace)):
            base = tuple(c for c, k in trace[:i])
            for alt in range(1, trace[i][1]):
                stack.append(base + (alt,))


def sequences(alphabet, depth):
    """All sequences over the alphabet of length 0..depth, shortest first."""
    import itertools
    for d in range(depth + 1):
        for s in itertools.product(alphabet, repeat=d):
            yield s


def raises(exc, fn, *args, **kw):
    try:
        fn(*args, **kw)
    except exc:
        return True
    return False


def outcome(fn, *args, errors=(Exception,), **kw):
    """('ok', value) or ('err', class name)"""
    try:
        return ("ok", fn(*args, **kw))
    except errors as e:
        return ("err", type(e).__name__)


class Recorder(object):
    """Silences hachoir's log."""


def quiet():
    from hachoir.core import config
    config.quiet = True
    config.verbose = False
    config.debug = False
    from hachoir.core.log import log
    log.use_print = False
    log.use_buffer = False
    return log
