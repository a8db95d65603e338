"""Check runner: contracts (deductive) + concrete replay search (bounded), evidence, exit code."""
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_path():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- child processes
class Job:
    def __init__(self, name, fn, timeout, mem=5 << 30):
        self.name, self.fn, self.timeout, self.mem = name, fn, timeout, mem
        self.pid = None
        self.result = None
        self.status = "pending"
        self.path = None
        self.t0 = 0

    def start(self, tmp):
        fd, self.path = tempfile.mkstemp(dir=tmp)
        os.close(fd)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                if self.mem:
                    resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
                dn = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get("PYVC_DEBUG"):
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                try:
                    r = ("ok", self.fn())
                except MemoryError:
                    r = ("memory", None)
                except BaseException:
                    r = ("crash", traceback.format_exc()[-3000:])
                with open(self.path + ".tmp", "wb") as f:
                    pickle.dump(r, f)
                os.rename(self.path + ".tmp", self.path)
            finally:
                os._exit(0)
        self.pid = pid
        self.t0 = time.time()
        self.status = "running"

    def poll(self):
        p, st = os.waitpid(self.pid, os.WNOHANG)
        if p:
            self.collect()
            return True
        if time.time() - self.t0 > self.timeout:
            self.kill()
            os.waitpid(self.pid, 0)
            self.collect()
            if self.status == "crash":
                self.status = "timeout"
            return True
        return False

    def collect(self):
        try:
            with open(self.path, "rb") as f:
                self.status, self.result = pickle.load(f)
        except Exception:
            self.status, self.result = "crash", "no result (killed or out of memory)"
        for p in (self.path, self.path + ".tmp"):
            if os.path.exists(p):
                os.unlink(p)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def kill(self):
        for k in (os.killpg, os.kill):
            try:
                k(self.pid, signal.SIGKILL)
            except OSError:
                pass


def run_jobs(jobs, par, tmp):
    from .core import Forker
    todo, live = list(jobs), []
    given = 0
    while todo or live:
        while todo and len(live) < par:
            j = todo.pop(0)
            j.start(tmp)
            live.append(j)
        live = [j for j in live if not j.poll()]
        while not todo and live and given < par - len(live):
            Forker.give()          # idle cores go to the paths of the remaining functions
            given += 1
        time.sleep(0.02)
    return jobs


# ---------------------------------------------------------------- contracts
def verify_job(con, timeout):
    from . import verify as V

    def fn():
        r = V.verify(con, timeout=timeout)
        return dict(name=con.name, target=con.target, obls=r.obls, detail=r.detail, paths=r.paths,
                    time=r.time, solver=r.solver_time, error=r.error, missing=r.missing,
                    assumed=sorted(r.assumed), touched=sorted(r.touched), backend=r.backend,
                    approx=getattr(r, "approx", False), nobl=getattr(r, "nobl", {}),
                    hints=getattr(r, "hints", []))
    return fn


def lemma_job(lem):
    from . import verify as V

    def fn():
        name, f, props, timeout = lem
        t = time.time()
        out = {}
        det = {}
        r = f()
        items = r if isinstance(r, list) else [("holds", r[0], r[1])]
        be = {}
        for nm, asm, goal in items:
            st, info, b = V.discharge(asm, goal, timeout)
            out[nm] = st
            if st == "proved":
                be[b] = be.get(b, 0) + 1
            else:
                det[nm] = dict(info=str(info)[:2000])
        return dict(name="lemma " + name, target="lemma", obls=out, detail=det, paths=0,
                    time=time.time() - t, solver=time.time() - t, error=None, missing=False,
                    assumed=[], touched=[], backend=be, approx=False, nobl={}, hints=[])
    return fn


# ---------------------------------------------------------------- probes
class ProbeSkip(Exception):
    pass


def probe_job(pid, budget, seed, part, parts, hints):
    def fn():
        from . import probes as PR
        return PR.run_module(pid, budget, seed, part, parts, hints)
    return fn


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", [])]


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_path()
    if "--replay" in argv:
        from . import probes as PR
        return PR.replay(argv[argv.index("--replay") + 1])
    quick = tier != "thorough"
    cons, lemmas, load_error = [], [], None
    try:
        from . import interp, verify as V
        interp.INTERP_ROOTS = (os.path.join(REPO, "yangson"), os.path.join(VERIF, "contracts"))
        importlib.import_module("contracts." + pid.lower())
        cons = [c for c in V.REGISTRY if pid in c.props]
        lemmas = [l for l in V.LEMMAS if pid in l[2]]
    except ModuleNotFoundError as e:
        load_error = traceback.format_exc()[-1500:]
        if e.name == "contracts." + pid.lower():
            load_error = None
    except Exception:
        load_error = traceback.format_exc()[-1500:]
    budget = float(os.environ.get("PYVC_BUDGET", "0")) or (25 if quick else 420)
    ctmo = float(os.environ.get("PYVC_CTMO", "0")) or (90 if quick else 500)
    nprobe = 3
    only = os.environ.get("PYVC_ONLY")
    if only:
        cons = [c for c in cons if only in c.name]
        lemmas = [l for l in lemmas if only in l[0]]
    tmp = tempfile.mkdtemp(prefix="pyvc")
    tempfile.tempdir = tmp
    try:
        from .core import Forker
        Forker.init()
        jobs = []
        for c in cons:
            t = min(c.timeout, ctmo) if quick else max(c.timeout, ctmo)
            jobs.append(Job(c.name, verify_job(c, t), t + 25))
            jobs[-1].con = c
        for l in lemmas:
            jobs.append(Job("lemma " + l[0], lemma_job(l), 150))
            jobs[-1].con = None
        pjobs = [] if os.environ.get("PYVC_NOPROBE") else \
            [Job(f"probe{k}", probe_job(pid, budget, seed * 1000 + k, k, nprobe, []), budget + 90)
             for k in range(nprobe)]
        jobs.sort(key=lambda j: -(j.con.timeout if j.con else 0))
        run_jobs(pjobs + jobs, 8, tmp)
        return report(pid, tier, seed, jobs, pjobs, load_error, t0, budget, tmp, lemmas)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def report(pid, tier, seed, jobs, pjobs, load_error, t0, budget, tmp, lemmas):
    import fnmatch
    obl = disch = 0
    proved_fns, undecided, refuted, missing = [], [], [], []
    solver = 0.0
    backends = {}
    assumed, touched = set(), set()
    per_fn = []
    hints = []
    bounded = []
    for j in jobs:
        r = j.result if j.status == "ok" else None
        if r is not None and j.con is not None and j.con.bounded:
            bounded.append(dict(function=j.name, bound=j.con.bounded, obligations=len(r["obls"]), paths=r["paths"],
                                held=sum(1 for s in r["obls"].values() if s == "proved"), error=r["error"]))
            solver += r["solver"]
            for nm, st in r["obls"].items():
                if st == "refuted" and not (r["detail"].get(nm, {}) or {}).get("approx"):
                    refuted.append((j.name, nm, r["detail"].get(nm), r["target"]))
                    hints += r.get("hints", [])
            continue
        if r is None:
            undecided.append((j.name, "all", f"verifier {j.status}: {str(j.result)[-300:] if j.result else ''}"))
            obl += 1
            per_fn.append(dict(function=j.name, status=j.status))
            continue
        if r["missing"]:
            missing.append(j.name)
            per_fn.append(dict(function=j.name, status="missing in this tree"))
            continue
        solver += r["solver"]
        assumed |= set(r["assumed"])
        touched |= set(r["touched"])
        for k, v in r["backend"].items():
            backends[k] = backends.get(k, 0) + v
        bad = False
        if not r["obls"]:
            undecided.append((j.name, "none", r["error"] or "no obligations generated"))
            bad = True
        for nm, st in r["obls"].items():
            obl += 1
            if st == "proved" and not r["error"]:
                disch += 1
            elif st == "refuted" and not (r["detail"].get(nm, {}) or {}).get("approx"):
                refuted.append((j.name, nm, r["detail"].get(nm), r["target"]))
                hints += r.get("hints", [])
                bad = True
            else:
                why = r["error"] or str((r["detail"].get(nm) or {}).get("info", ""))[:300]
                undecided.append((j.name, nm, ("over-approximated: " if st == "refuted" else "") + why))
                bad = True
        if not bad:
            proved_fns.append(j.name)
        per_fn.append(dict(function=j.name, target=r["target"], obligations=len(r["obls"]),
                           discharged=sum(1 for s in r["obls"].values() if s == "proved"),
                           vcs=sum(r["backend"].values()), paths=r["paths"], solver_s=round(r["solver"], 2),
                           wall_s=round(r["time"], 2), status="proved" if not bad else "not proved"))
    # ---- concrete results
    fails = {}
    pstats = dict(cases=0, distinct=0, tests={}, skipped={}, errors=[])
    for j in pjobs:
        r = j.result if j.status == "ok" else None
        if r is None:
            pstats["errors"].append(f"{j.name}: {j.status} {str(j.result)[-1500:]}")
            continue
        for f in r["fails"]:
            fails.setdefault(f["key"], f)
        pstats["cases"] += r["cases"]
        pstats["distinct"] += r["distinct"]
        for k, v in r["tests"].items():
            pstats["tests"][k] = pstats["tests"].get(k, 0) + v
        pstats["skipped"].update(r["skipped"])
        pstats["errors"] += r["errors"]
        pstats.setdefault("samples", []).extend(r["samples"][:3])
    # ---- deeper concrete search when an obligation fails and nothing concrete was found
    if refuted and not fails and pjobs:
        extra = [Job(f"search{k}", probe_job(pid, 60 if tier == "quick" else 240, seed * 7919 + 500 + k, k, 8,
                                             hints), 330) for k in range(8)]
        run_jobs(extra, 8, tmp)
        for j in extra:
            if j.status == "ok":
                for f in j.result["fails"]:
                    fails.setdefault(f["key"], f)
                pstats["cases"] += j.result["cases"]
    known = load_known()
    newf = []
    for k, f in sorted(fails.items()):
        hit = [e for e in known if e["property"] == pid and fnmatch.fnmatchcase(k, e["key"])]
        if hit:
            print(f"KNOWN-FINDING: property={pid} {k}: {hit[0]['what']}")
        else:
            newf.append(f)
    viol = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)

    def write_replay(tag, data):
        h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(VERIF, "replays", f"{pid}-{tag}-{h}.json")
        with open(p, "w") as f:
            json.dump(data, f, indent=1, default=str)
        return p
    ref_data = [dict(function=a, obligation=b, verifier=d, target=t) for a, b, d, t in refuted]
    for f in newf[:10]:
        p = write_replay("case", dict(property=pid, kind="concrete input on the real code", **f,
                                      failed_obligations=ref_data[:5],
                                      how=f"python3-vt /verif/check.py {pid} --replay <this file>"))
        print(f"  {f['key']}: {f['what'][:600]}")
        print(f"VIOLATION property={pid} replay={p}")
        viol += 1
    if refuted and not newf:
        for a, b, d, t in refuted:
            print(f"  failed obligation: {a}: {b}")
        p = write_replay("obligation", dict(property=pid, kind="failed proof obligation",
                                            failed_obligations=ref_data))
        print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        viol += 1
    elif refuted:
        for a, b, d, t in refuted:
            print(f"  failed obligation: {a}: {b}")
    for a, b, w in undecided:
        print(f"UNDECIDED (bounded stand-in only): {a}: {b}: {w.splitlines()[-1][:200] if w else ''}")
    for b in bounded:
        print(f"BOUNDED ({b['bound']}): {b['function']}: {b['held']}/{b['obligations']} hold"
              + (f" ({b['error']})" if b["error"] else ""))
    for m in missing:
        print(f"NOT IN THIS TREE: {m}")
    if load_error:
        print("CONTRACTS NOT GENERATED (bounded stand-in only):", load_error.splitlines()[-1])
        if os.environ.get("PYVC_DEBUG"):
            print(load_error)
    for e in pstats["errors"][:5]:
        print("PROBE ERROR:", e[-1500:] if os.environ.get("PYVC_DEBUG") else e[-300:])
    for k, v in list(pstats["skipped"].items())[:5]:
        print("PROBE SKIPPED:", k, v)
    wall = time.time() - t0
    print(f"{pid}: {disch}/{obl} obligations discharged in {len(proved_fns)} functions"
          f" ({', '.join(f'{k}:{v}' for k, v in sorted(backends.items()))} VCs), {pstats['cases']} concrete cases,"
          f" {viol} violations, {wall:.1f} s")
    ev = dict(
        property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="proof",
        coverage=dict(
            obligations=obl, discharged=disch,
            checker_cmd=f"python3-vt /verif/check.py {pid}" + (" --thorough" if tier == "thorough" else ""),
            trusted_base=TRUSTED,
            vcs_by_backend=backends, solver_seconds=round(solver, 2),
            functions_proved=sorted(proved_fns), functions=per_fn,
            undecided=[dict(function=a, obligation=b, reason=w[-300:]) for a, b, w in undecided],
            missing=missing, contracts_not_generated=load_error,
            inlined_real_functions=sorted(x for x in touched if x.startswith("yangson")),
            bounded_contracts=bounded,
            bounded=dict(note="bounded differential search on the real code; finds replays and stands in for"
                              " undecided obligations; never counted as proved",
                         evaluations=pstats["cases"], distinct_nontrivial=pstats["distinct"],
                         budget_s=budget, by_test=pstats["tests"], samples=pstats.get("samples", [])[:8],
                         skipped=pstats["skipped"], errors=pstats["errors"][:5])),
        assumptions=sorted(assumed) + ASSUMPTIONS,
        wall_s=round(wall, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return 1 if viol else 0


TRUSTED = [
    "pyvc: the verification-condition generator in /verif/pyvc (interprets the CPython AST of /repo's files)",
    "pyvc/models.py: models of the Python built-ins and library calls the code uses",
    "z3 4.x (python3-vt) and cvc5 1.1.2",
    "contracts/*.py: the specifications and the declared shapes of pre-state objects",
]
ASSUMPTIONS = [
    "int is mathematical; Decimal is exact real arithmetic with a 28-digit quantize bound; float is IEEE 754 binary64",
    "attributes of pre-state objects have the shapes declared in contracts/*.py (class invariants established by constructors)",
    "object graphs of pre-state containers are acyclic where the contract recurses",
    "messages carried by exceptions are not observed, only their classes",
    "hash functions are congruences for the values of one kind; datetime.now() is unconstrained",
]
