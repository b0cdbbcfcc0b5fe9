"""Run the checks of one property.

    run.py ID [--tier quick|thorough] [--seed N]      search, exit 0 (held) / 1 (VIOLATION) / 2 (error)
    run.py ID --replay FILE                           run one saved case
    run.py ID --worker K ...                          internal
"""
import argparse
import collections
import glob
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"     # never trust a stale cache of the code under test
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core  # noqa: E402
from core import Violation, case_hash  # noqa: E402

NWORK = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_S = 40
CAP = {"quick": 780, "thorough": 6 * 3600}


class CaseTimeout(BaseException):
    pass


def registry():
    import props
    return props.PROPS


def known_findings(pid):
    out = {}
    path = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            if line.startswith("open:") and f"property={pid} " in line:
                rest = line.split("key=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


class Runner:
    """Runs cases of one property in this process."""

    def __init__(self, pid):
        self.pid = pid
        self.root = core.setup_path()
        warnings.simplefilter("ignore")
        self.known = known_findings(pid)
        self.seen_known = {}
        self.mod = registry()[pid]
        self.subs = {s.name: s for s in self.mod["subs"]()}
        import numpy as np
        np.seterr(all="ignore")
        import bfit
        here = os.path.abspath(bfit.__file__)
        assert here.startswith(os.path.join(os.path.abspath(self.root), "bfit")), here
        self.stats = {}
        self.timeouts = []

    def one(self, sub, case):
        """Run one case: returns Info, raises Violation, or another exception on a harness error."""
        import numpy as np
        np.random.seed(12345)

        def on_alarm(*_):
            raise CaseTimeout()
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, sub.timeout)
        try:
            try:
                return sub.check(case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as v:
            if v.key is not None and v.key in self.known:
                self.seen_known[v.key] = str(v)[:300]
                return core.Info(False, "known-finding")
            raise
        except (CaseTimeout, KeyboardInterrupt):
            raise
        except BaseException as e:  # pylint: disable=broad-except
            where = core.lib_frame(e, self.root)
            tb = traceback.format_exc(limit=-4)
            if where is None and isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
                raise Violation(f"what the library returned has another form than promised: {e}\n{tb}") from None
            if isinstance(e, MemoryError) or where is None:
                raise
            raise Violation(f"unexpected {type(e).__name__} in {where}: {e}\n{tb}") from None

    def record(self, sub, case, info):
        st = self.stats.setdefault(sub.name, {"n": 0, "nt": set(), "labels": collections.Counter(),
                                              "samples": [], "skipped": 0})
        st["n"] += 1
        info = info or core.Info(True)
        for lab in info["labels"]:
            st["labels"][lab] += 1
        if info["nt"]:
            st["nt"].add(case_hash(case))
            k = len(st["samples"])
            if k < 3 and (st["n"] % 7 == 3 or st["n"] > 40) and len(json.dumps(case)) < 1500:
                st["samples"].append(case)

    def search(self, sub, n, seed, stop_file):
        """Generated search.  Returns (case, message) of the smallest failure found, or None."""
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = SHRINK_S
        best = []

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink),
                  report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @hypothesis.given(sub.strategy())
        def test(case):
            if not best and os.path.exists(stop_file):
                return
            case = json.loads(json.dumps(case))
            try:
                info = self.one(sub, case)
            except CaseTimeout:
                self.timeouts.append([sub.name, case])
                return
            except Violation as v:
                size = len(json.dumps(case))
                if not best or size <= best[0][0]:
                    best[:] = [(size, case, str(v))]
                raise
            self.record(sub, case, info)

        try:
            test()
        except Violation:
            pass
        except BaseException as e:  # pylint: disable=broad-except
            # flaky errors and the like of Hypothesis come after a recorded failure
            if not best or type(e).__module__.split(".")[0] != "hypothesis":
                if not (best and isinstance(e, BaseExceptionGroup)):
                    raise
        if best:
            return best[0][1], best[0][2]
        return None


def worker(args):
    r = Runner(args.id)
    out = {"violation": None, "stats": {}, "error": None, "known": {}, "timeouts": []}
    stop_file = os.path.join(args.scratch, "stop")
    try:
        for name, sub in r.subs.items():
            if args.only and name not in args.only.split(","):
                continue
            if sub.cases is not None:
                for i, case in enumerate(sub.cases(args.tier)):
                    if i % args.nwork == args.worker:
                        case = json.loads(json.dumps(case))
                        try:
                            r.record(sub, case, r.one(sub, case))
                        except Violation as v:
                            out["violation"] = [name, case, str(v)]
                            break
                        except CaseTimeout:
                            r.timeouts.append([name, case])
            else:
                n = sub.quick * (sub.thorough if args.tier == "thorough" else 1)
                n = max(1, int(-(-n * args.scale // args.nwork)))
                h = hashlib.sha256(f"{args.seed}|{args.id}|{name}|{args.worker}".encode()).digest()
                got = r.search(sub, n, int.from_bytes(h[:7], "big"), stop_file)
                if got is not None:
                    out["violation"] = [name, got[0], got[1]]
            if out["violation"] is not None:
                open(stop_file, "w").close()
                break
            if os.path.exists(stop_file):
                break
    except BaseException:  # pylint: disable=broad-except
        out["error"] = traceback.format_exc()
    for name, st in r.stats.items():
        out["stats"][name] = {"n": st["n"], "nt": sorted(st["nt"]), "labels": dict(st["labels"]),
                              "samples": st["samples"]}
    out["known"] = r.seen_known
    out["timeouts"] = r.timeouts[:5]
    with open(os.path.join(args.scratch, f"w{args.worker}.json"), "w", encoding="utf8") as f:
        json.dump(out, f)


def report(pid, sub, case, msg, replay=None):
    if replay is None:
        d = os.path.join(core.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{pid}-{sub}-{case_hash(case)}.json")
        with open(replay, "w", encoding="utf8") as f:
            json.dump({"property": pid, "sub": sub, "case": case, "message": msg}, f, indent=1)
    print(f"{pid} {sub}: {msg}")
    print(f"case: {json.dumps(case)[:2000]}")
    print(f"VIOLATION property={pid} replay={os.path.relpath(replay, core.VERIF)}", flush=True)


def make_package(scratch):
    """A scratch copy of the package with all of its data: loose files over those of data.tar."""
    root = os.path.join(scratch, "pkg")
    src = os.path.join(core.REPO, "bfit")
    dst = os.path.join(root, "bfit")
    os.makedirs(dst)
    for f in glob.glob(os.path.join(src, "*.py")):
        shutil.copy(f, dst)
    data = os.path.join(dst, "data")
    os.makedirs(data)
    tar = os.path.join(src, "data", "data.tar")
    if os.path.exists(tar):
        tmp = os.path.join(scratch, "tar")
        os.makedirs(tmp)
        subprocess.run(["tar", "-xf", tar, "-C", tmp], check=True)
        for kind in ("neutral", "anion", "cation"):
            for d, _, files in os.walk(tmp):
                if os.path.basename(d) == kind:
                    shutil.copytree(d, os.path.join(data, kind), dirs_exist_ok=True)
        shutil.rmtree(tmp)
    for name in os.listdir(os.path.join(src, "data")):
        p = os.path.join(src, "data", name)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(data, name), dirs_exist_ok=True)
        elif not name.endswith(".tar"):
            shutil.copy(p, data)
    return root


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nwork", type=int, default=NWORK)
    ap.add_argument("--scratch")
    ap.add_argument("--only", help="comma-separated names of sub-checks (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="factor of the number of cases")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.worker is not None:
        worker(args)
        return 0

    t0 = time.time()
    pid = args.id
    spec = registry()[pid]
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    procs = []
    try:
        if spec.get("data"):
            os.environ["VERIF_PKG_ROOT"] = make_package(scratch)
        else:
            os.environ.pop("VERIF_PKG_ROOT", None)
        if args.replay:
            r = Runner(pid)
            rec = json.load(open(args.replay, encoding="utf8"))
            try:
                r.one(r.subs[rec["sub"]], rec["case"])
            except Violation as v:
                report(pid, rec["sub"], rec["case"], str(v), replay=os.path.abspath(args.replay))
                return 1
            print(f"{pid}: the property holds on {args.replay}")
            return 0

        violation = None
        regress = sorted(glob.glob(os.path.join(core.VERIF, "regress", pid, "*.json")))
        nreg = 0
        if regress:
            r = Runner(pid)
            for path in regress:
                rec = json.load(open(path, encoding="utf8"))
                if rec["sub"] not in r.subs:
                    continue
                nreg += 1
                try:
                    r.one(r.subs[rec["sub"]], rec["case"])
                except Violation as v:
                    violation = (rec["sub"], rec["case"], "saved case: " + str(v))
                    break
        outs = []
        if violation is None:
            cmd = [sys.executable, "-B", os.path.abspath(__file__), pid, "--tier", args.tier,
                   "--seed", str(args.seed), "--nwork", str(args.nwork), "--scratch", scratch,
                   "--scale", str(args.scale)]
            if args.only:
                cmd += ["--only", args.only]
            procs = [subprocess.Popen(cmd + ["--worker", str(k)]) for k in range(args.nwork)]
            end = t0 + CAP[args.tier]
            for p in procs:
                try:
                    p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            for k in range(args.nwork):
                path = os.path.join(scratch, f"w{k}.json")
                if os.path.exists(path):
                    outs.append(json.load(open(path, encoding="utf8")))
                else:
                    outs.append({"violation": None, "stats": {}, "known": {}, "timeouts": [],
                                 "error": f"worker {k} did not finish"})
            found = [o["violation"] for o in outs if o["violation"]]
            if found:
                found.sort(key=lambda v: len(json.dumps(v[1])))
                violation = tuple(found[0])

        # ---- evidence
        subs = {}
        for o in outs:
            for name, st in o["stats"].items():
                s = subs.setdefault(name, {"n": 0, "nt": set(), "labels": collections.Counter(),
                                           "samples": []})
                s["n"] += st["n"]
                s["nt"].update(st["nt"])
                s["labels"].update(st["labels"])
                s["samples"] += st["samples"]
        core.setup_path()
        objs = {s.name: s for s in spec["subs"]()}
        ev = {
            "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(s["n"] for s in subs.values()),
                "distinct_nontrivial": sum(len(s["nt"]) for s in subs.values()),
                "rule": "Hypothesis-generated cases (seeded by VERIF_SEED), distinct by the hash of "
                        "the case. " + " | ".join(f"{n}: {objs[n].rule}" for n in objs),
                "samples": [{"sub": n, "case": c} for n, s in subs.items()
                            for c in s["samples"][:2]][:12],
                "per_check": {n: {"evaluations": s["n"], "distinct_nontrivial": len(s["nt"]),
                                  "enumerated": objs[n].cases is not None,
                                  "classes": dict(s["labels"].most_common(40))}
                              for n, s in subs.items()},
                "saved_cases_replayed": nreg,
                "inconclusive_timeouts": sum(len(o["timeouts"]) for o in outs),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 0 if violation is None else 1,
        }
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", f"{pid}.json"), "w", encoding="utf8") as f:
            json.dump(ev, f, indent=1)

        known = {}
        for o in outs:
            known.update(o["known"])
        texts = known_findings(pid)
        for key in sorted(known):
            print(f"KNOWN-FINDING: property={pid} {key} {texts.get(key, known[key])}")
        if violation is not None:
            report(pid, *violation)
            return 1
        errors = [o["error"] for o in outs if o["error"]]
        if errors:
            print(f"{pid}: harness error\n{errors[0]}", file=sys.stderr)
            return 2
        slow = [t for o in outs for t in o["timeouts"]]
        if slow:
            print(f"{pid}: inconclusive, cases over their time limit: {json.dumps(slow)[:1500]}",
                  file=sys.stderr)
            return 2
        print(f"{pid}: held on {ev['coverage']['evaluations']} cases "
              f"({ev['coverage']['distinct_nontrivial']} distinct non-trivial), "
              f"{nreg} saved, {ev['wall_s']} s")
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
