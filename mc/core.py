"""Explorer core shared by all checks.

A check module (mc/checks/cNN.py) defines

    PROP       property id
    LEVEL      manifest level (must agree with MANIFEST.json)
    RULE       how states are generated and what makes one non-trivial
    def build(tier) -> list of work items (JSON-able descriptors)
    def run(item)   -> Result

`build` enumerates the complete bounded space (it may itself run a BFS); `run`
executes the real code of /repo on one item and judges it with the oracle.
Nothing is sampled: every item is executed.
"""
import os, sys, json, time, hashlib, signal, traceback, contextlib, io, fnmatch, importlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "150"))   # CPU seconds per item


class Result(object):
    """Outcome of one item."""
    def __init__(self):
        self.violations = []      # list of (key, message)
        self.evals = 0            # executions of the real code
        self.transitions = 0      # model steps replayed on / compared with the implementation
        self.validated = 0        # reference-model traces compared with the implementation
        self.tags = {}            # outcome histogram (to show non-vacuity)
        self.sample = None
        self.states = set()       # hashes of model states visited

    def bad(self, key, msg):
        self.violations.append((str(key), str(msg)[:1500]))

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def expect(self, cond, key, msg):
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        return bool(cond)


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout("no answer within %g CPU seconds" % CPU_LIMIT)


def canon(obj):
    """Stable short hash of nested python/numpy data."""
    h = hashlib.sha1()

    def upd(o):
        import numpy as np
        if isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode()); upd(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"["); [upd(x) for x in o]; h.update(b"]")
        elif isinstance(o, np.ndarray):
            h.update(str(o.shape).encode()); h.update(np.ascontiguousarray(o).tobytes())
        else:
            h.update(repr(o).encode())
    upd(obj)
    return h.hexdigest()[:16]


class Switch(io.TextIOBase):
    """Stand-in for stdout/stderr that the code under test may bind at import time; writes go to the current item's buffer."""
    buf = None

    def write(self, s):
        if self.buf is None:
            return len(s)
        return self.buf.write(s)

    def writable(self):
        return True

    def tell(self):
        return self.buf.tell()

    def getvalue(self):
        return self.buf.getvalue()


OUT, ERR = Switch(), Switch()


@contextlib.contextmanager
def quiet():
    """Capture python-level stdout/stderr of the code under test (also when bound at import)."""
    sys.stdout.flush(); sys.stderr.flush()
    o, e, ob, eb = sys.stdout, sys.stderr, OUT.buf, ERR.buf
    sys.stdout, sys.stderr = OUT, ERR
    OUT.buf, ERR.buf = io.StringIO(), io.StringIO()
    try:
        yield OUT
    finally:
        sys.stdout, sys.stderr, OUT.buf, ERR.buf = o, e, ob, eb


_MOD = None


def _worker_init(modname):
    global _MOD
    import warnings
    warnings.simplefilter("ignore")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    signal.signal(signal.SIGPROF, _on_alarm)
    _MOD = importlib.import_module(modname)


def run_item(mod, item):
    import numpy as np
    np.seterr(all="ignore")
    r = None
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with quiet():
            r = mod.run(item)
    except (Exception, CaseTimeout) as ex:
        r = Result()
        tb = traceback.extract_tb(ex.__traceback__)
        loc = [f for f in tb if os.sep + "pypower" + os.sep in f.filename]
        where = "%s:%s" % (os.path.basename(loc[-1].filename), loc[-1].name) if loc else \
                "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)
        r.bad("exception:%s@%s:%s" % (type(ex).__name__, where, json.dumps(item, default=str)[:300]),
              "unexpected %s: %s\n%s" % (type(ex).__name__, ex, "".join([l.split("\n")[0]+"\n" for l in traceback.format_tb(ex.__traceback__)[-4:]])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return r


def _work(chunk):
    out = []
    for item in chunk:
        r = run_item(_MOD, item)
        out.append((item, r))
    # aggregate to keep IPC small
    agg = Result()
    viol = []
    n_nontriv = 0
    for item, r in out:
        agg.evals += r.evals; agg.transitions += r.transitions; agg.validated += r.validated
        agg.states |= set(r.states)
        for k, v in r.tags.items():
            agg.tag(k, v)
        for k, m in r.violations:
            viol.append((item, k, m))
        if r.sample is not None and agg.sample is None:
            agg.sample = r.sample
    return len(out), agg, viol[:50], len(viol)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [e for e in d.get("known", []) if e["property"] == prop]


def main(argv):
    prop = argv[0].upper()
    modname = "mc.checks.%s" % prop.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    limit = None
    if "--limit" in argv:
        limit = int(argv[argv.index("--limit") + 1])

    import warnings
    warnings.simplefilter("ignore")
    build_err = None
    items, mod, info = [], None, {}
    try:
        with quiet():
            mod = importlib.import_module(modname)
            if replay:
                with open(replay) as f:
                    items = [json.load(f)["item"]]
            else:
                items = mod.build(tier)
                if isinstance(items, tuple):
                    items, info = items
    except Exception as ex:
        tb = "".join(traceback.format_exc()[-3000:])
        if "pypower" + os.sep in tb:
            build_err = tb        # the tree under test cannot even be imported / driven
        else:
            sys.stderr.write(tb)
            return 2
    if limit:
        items = items[:limit]
    agg = Result()
    viol, nviol, ndone = [], 0, 0
    if build_err is not None:
        viol.append(({"build": True}, "import-or-build", build_err)); nviol = 1
        agg.evals = 1
    elif replay or jobs == 1:
        signal.signal(signal.SIGPROF, _on_alarm)
        for it in items:
            r = run_item(mod, it)
            ndone += 1
            agg.evals += r.evals; agg.transitions += r.transitions; agg.validated += r.validated
            agg.states |= set(r.states)
            for k, v in r.tags.items():
                agg.tag(k, v)
            if agg.sample is None:
                agg.sample = r.sample
            for k, m in r.violations:
                viol.append((it, k, m)); nviol += 1
    else:
        # deal items round-robin into chunks so that heavy neighbours spread out
        nch = max(1, min(len(items), jobs * 16))
        chunks = [items[i::nch] for i in range(nch)]
        chunks = [c for c in chunks if c]
        ctx = mp.get_context("fork")
        from concurrent.futures import ProcessPoolExecutor, as_completed
        with ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_worker_init, initargs=(modname,)) as ex:
            futs = {ex.submit(_work, c): c for c in chunks}
            for f in as_completed(futs):
                try:
                    n, a, v, nv = f.result()
                except Exception as e:     # worker died
                    viol.append((futs[f][0], "worker-died", "worker process ended: %r" % e)); nviol += 1
                    continue
                ndone += n
                nviol += nv
                viol.extend(v)
                agg.evals += a.evals; agg.transitions += a.transitions; agg.validated += a.validated
                agg.states |= a.states
                for k, x in a.tags.items():
                    agg.tag(k, x)
                if agg.sample is None:
                    agg.sample = a.sample

    # order violations: simplest item first
    viol.sort(key=lambda v: (len(json.dumps(v[0], default=str)), str(v[1])))
    known = load_known(prop)
    new, old = [], {}
    for it, k, m in viol:
        hit = None
        for e in known:
            if fnmatch.fnmatchcase(k, e["key"]):
                hit = e; break
        if hit is None:
            new.append((it, k, m))
        else:
            old.setdefault(hit["key"], (hit, 0))
            old[hit["key"]] = (hit, old[hit["key"]][1] + 1)

    for key in sorted(old):
        e, n = old[key]
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    code = 0
    if new:
        code = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seenk = set()
        shown = 0
        for it, k, m in new:
            if k in seenk:
                continue
            seenk.add(k)
            path = os.path.join(rdir, "%s-%s.json" % (prop, canon([it, k])))
            with open(path, "w") as f:
                json.dump({"property": prop, "item": it, "key": k, "message": m}, f, indent=1, default=str)
            if shown < 10:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   key=%s" % k[:300])
                print("   " + m.replace("\n", "\n   ")[:1200])
                shown += 1
            if len(seenk) >= 40:
                break
        print("property=%s: %d violation(s) observed" % (prop, nviol))
    wall = time.time() - t0
    if not replay:
        cov = {"exhaustive": not limit, "items": len(items), "items_done": ndone,
               "outcomes": dict(sorted(agg.tags.items())),
               "samples": [agg.sample if agg.sample is not None else (items[:1] or ["none"])[0]],
               "rule": getattr(mod, "RULE", "") if mod else ""}
        level = getattr(mod, "LEVEL", "exploration") if mod else "exploration"
        nstates = len(agg.states) or info.get("states", 0)
        if level == "model_checking":
            cov["states"] = int(nstates)
            cov["transitions"] = int(info.get("transitions", 0) + agg.transitions)
            cov["traces_validated_against_impl"] = int(agg.validated)
            cov["evaluations"] = int(agg.evals)
        else:
            cov["evaluations"] = int(agg.evals)
            cov["distinct_nontrivial"] = int(nstates)
        for k in info:
            if k not in cov:
                cov[k] = info[k]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
              "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print("%s %s tier=%s items=%d evaluations=%d states=%d transitions=%d validated=%d wall=%.1fs outcomes=%s" % (
            prop, "FAIL" if code else "ok", tier, ndone, agg.evals, nstates, info.get("transitions", 0) + agg.transitions,
            agg.validated, wall, json.dumps(dict(sorted(agg.tags.items())))[:700]))
    return code
