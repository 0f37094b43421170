"""Runs one check: shards Hypothesis searches over processes, shrinks, confirms, reports."""
import hashlib, importlib, json, multiprocessing as mp, os, shutil, sys, tempfile, time, traceback
import warnings; warnings.filterwarnings("ignore")
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "apexv-hypothesis"))
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
import hypothesis.internal.conjecture.engine as _eng
_eng.MAX_SHRINKING_SECONDS = 30
from lib import build
from lib.worker import Worker, Violation, Crash

VERIF = build.VERIF
NSHARD = 8


class Prop:
    """One executable statement: strategy of JSON cases, test(case, ctx), example counts."""
    def __init__(self, name, strategy, test, quick, thorough=None, cli=False):
        self.name, self.strategy, self.test = name, strategy, test
        self.quick, self.thorough = quick, thorough or quick * 20


class Hang(KeyboardInterrupt):
    """leaves a search at once: a hang was found and confirmed"""


class Ctx:
    def __init__(self, bins, scratch):
        self.bins, self.scratch = bins, scratch
        self.w = Worker(bins["worker"], cwd=scratch) if "worker" in bins else None
        self.labels = {}
        self.nontrivial = False
        self.known = []

    def label(self, *ls):
        for l in ls:
            self.labels[l] = self.labels.get(l, 0) + 1

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def known_finding(self, fid):
        self.known.append(fid)

    def close(self):
        if self.w: self.w.stop()


def jkey(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def run_one(prop, case, ctx):
    """one authoritative run in a fresh worker; returns None or the failure text"""
    if ctx.w: ctx.w.fresh()
    try:
        prop.test(case, ctx)
        return None
    except Violation as e:
        return str(e) or type(e).__name__
    finally:
        if ctx.w: ctx.w.fresh()


def shard_main(modname, bins, tier, seed, shard, q, t_end, stop):
    scratch = tempfile.mkdtemp(prefix="apexv-")
    try:
        mod = importlib.import_module("checks." + modname)
        res = []
        for pi, prop in enumerate(mod.PROPS):
            n = prop.quick if tier == "quick" else prop.thorough
            n = (n + NSHARD - 1) // NSHARD
            res.append(run_prop(mod, prop, pi, n, bins, scratch, seed, shard, t_end, stop))
            if res[-1]["best"] is not None:
                t_end = min(t_end, time.monotonic() + 120)      # a failure is known: spend little on the rest
        q.put((shard, res, None))
    except BaseException:
        q.put((shard, None, traceback.format_exc()))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_prop(mod, prop, pi, n, bins, scratch, seed, shard, t_end, stop):
    ctx = Ctx(bins, scratch)
    st = dict(evals=0, skipped=0, unstable=[], best=None, msg=None, samples=[], err=None)
    seen = set()
    last = {}

    def body(case):
        if time.monotonic() > t_end or stop.is_set():
            st["skipped"] += 1
            return
        st["evals"] += 1
        ctx.nontrivial = False
        try:
            prop.test(case, ctx)
        except Violation as e:
            hang = isinstance(e, Crash) and e.kind == "timeout"
            if hang and stop.is_set():
                return
            if hang and st["best"] is not None and st["best"] != case:
                return          # do not spend the budget shrinking a hang
            r = run_one(prop, case, ctx)
            if hang and r is not None:
                if st["best"] is None: st["best"], st["msg"] = case, r
                stop.set()
                raise Hang()
            if r is None:
                if len(st["unstable"]) < 5: st["unstable"].append((case, str(e)))
                return
            if st["best"] is None or len(jkey(case)) <= len(jkey(st["best"])):
                st["best"], st["msg"] = case, r
            raise Violation(r)
        if ctx.nontrivial:
            k = hashlib.blake2b(jkey(case).encode(), digest_size=8).digest()
            if k not in seen:
                seen.add(k)
                if len(st["samples"]) < 3 and len(seen) % 7 == 1:
                    st["samples"].append(case)

    if n > 0:
        s = settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
                     phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)
        f = hseed(seed * 1000003 + shard * 101 + pi)(s(given(prop.strategy())(body)))
        try:
            f()
        except (Violation, Hang):
            pass
        except BaseException as e:
            if st["best"] is None:
                st["err"] = traceback.format_exc()
    ctx.close()
    st.update(name=prop.name, distinct=len(seen), labels=ctx.labels, known=sorted(set(ctx.known)),
              keys=None)
    return st


def main(argv):
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + cid.lower())
    t0 = time.monotonic()
    try:
        bins = {v: build.build(v) for v in getattr(mod, "BINS", ["worker"])}
    except build.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2
    props = {p.name: p for p in mod.PROPS}
    if "--replay" in argv:
        d = json.load(open(argv[argv.index("--replay") + 1]))
        scratch = tempfile.mkdtemp(prefix="apexv-")
        try:
            if d["sub"] not in props and hasattr(mod, "replay_extra"):
                ctx = Ctx(bins, scratch); r = mod.replay_extra(d, ctx); ctx.close()
            else:
                ctx = Ctx(bins, scratch)
                r = run_one(props[d["sub"]], d["case"], ctx)
                ctx.close()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("REPLAY %s: %s" % (d["sub"], "fails: " + r if r else "holds"))
        return 1 if r else 0

    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "6000"))
    t_end = time.monotonic() + budget
    failures, errors, unstable = [], [], []
    # replay tier: saved inputs of defects found before
    reg = os.path.join(VERIF, "regress", cid)
    nreg = 0
    if os.path.isdir(reg):
        scratch = tempfile.mkdtemp(prefix="apexv-")
        ctx = Ctx(bins, scratch)
        try:
            for f in sorted(os.listdir(reg)):
                d = json.load(open(os.path.join(reg, f)))
                if d["sub"] not in props: continue
                nreg += 1
                r = run_one(props[d["sub"]], d["case"], ctx)
                if r: failures.append((d["sub"], d["case"], r))
        finally:
            ctx.close(); shutil.rmtree(scratch, ignore_errors=True)

    q = mp.Queue()
    stop = mp.Event()
    ps = [mp.Process(target=shard_main, args=(cid.lower(), bins, tier, seed, i, q, t_end, stop)) for i in range(NSHARD)]
    for p in ps: p.start()
    results = []
    for _ in ps:
        sh, r, err = q.get()
        if err: errors.append(err)
        else: results.append(r)
    for p in ps: p.join()

    stats = {}
    samples = []
    known = set()
    for r in sorted(results, key=lambda r: json.dumps(r[0]["samples"], default=str) if r else ""):
        for st in r:
            s = stats.setdefault(st["name"], dict(evaluations=0, distinct_nontrivial=0, classes={}, skipped=0))
            s["evaluations"] += st["evals"]; s["distinct_nontrivial"] += st["distinct"]; s["skipped"] += st["skipped"]
            for k, v in st["labels"].items(): s["classes"][k] = s["classes"].get(k, 0) + v
            if st["best"] is not None: failures.append((st["name"], st["best"], st["msg"]))
            if st["err"]: errors.append(st["err"])
            known.update(st["known"])
            for u in st["unstable"]: unstable.append((st["name"],) + u)
            if sum(1 for x in samples if x["sub"] == st["name"]) < 2 and st["samples"]:
                samples.append(dict(sub=st["name"], case=st["samples"][0]))
    extra = {}
    if hasattr(mod, "extra") and not stop.is_set():
        # check-specific additional exploration (e.g. a coverage-guided campaign)
        x_fail, extra = mod.extra(tier, seed, bins, t_end)
        failures += x_fail

    # confirm: three fresh replays must all fail
    confirmed = []
    scratch = tempfile.mkdtemp(prefix="apexv-")
    try:
        done = set()
        for name, case, msg in sorted(failures, key=lambda f: (f[0], len(jkey(f[1])))):
            if name in done: continue
            rs = []
            for _ in range(3):
                ctx = Ctx(bins, scratch)
                if name in props: rs.append(run_one(props[name], case, ctx))
                else: rs.append(mod.replay_extra(dict(sub=name, case=case), ctx))
                ctx.close()
            if all(rs):
                done.add(name)
                confirmed.append((name, case, rs[0]))
                if stop.is_set(): break
            else:
                unstable.append((name, case, msg))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    kf = {}
    kpath = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kpath):
        for l in open(kpath):
            if l.startswith("finding: "):
                fid = l.split()[1]; kf[fid] = fid + ": " + l.split(None, 3)[3].strip()
    for fid in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (cid, kf.get(fid, fid)))
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for name, case, msg in confirmed:
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (cid, name))
        json.dump(dict(property=cid, sub=name, case=case, message=msg[:4000]), open(path, "w"), indent=1)
        print("%s: %s" % (name, msg[:1500]))
        print("case: %s" % jkey(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (cid, path))
    for u in unstable[:5]:
        print("note: not reproducible in a fresh process (ignored): %s %s" % (u[0], str(u[2])[:300]), file=sys.stderr)
    ev = sum(s["evaluations"] for s in stats.values()) + nreg + extra.get("evaluations", 0)
    dn = sum(s["distinct_nontrivial"] for s in stats.values()) + extra.get("distinct_nontrivial", 0)
    evd = dict(property=cid, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=dn, rule=mod.RULE, samples=samples[:12],
                             per_statement=stats, replayed_regressions=nreg,
                             known_findings=sorted(known), not_reproducible=len(unstable), **{k: v for k, v in extra.items() if k not in ("evaluations", "distinct_nontrivial")}),
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.monotonic() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs" % (cid, tier, seed, ev, dn, len(confirmed), time.monotonic() - t0))
    if confirmed:
        return 1
    if errors:
        print("CHECK ERROR\n" + errors[0])
        return 3
    return 0
