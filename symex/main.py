"""check of one property: parallel exploration, replay of counterexamples, evidence"""
import argparse
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, HERE)

from symex import worker as W  # noqa: E402

PY = sys.executable


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def replay(prop, cases, timeout):
    """-> list of result dicts (shorter than cases if the process died)"""
    if not cases:
        return []
    d = tempfile.mkdtemp(prefix="symex_")
    fn = os.path.join(d, "cases.json")
    with open(fn, "w") as f:
        json.dump(dict(property=prop, cases=cases), f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    out = ""
    try:
        p = subprocess.run([PY, "-m", "symex.worker", fn], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        err = "timeout"
    finally:
        os.unlink(fn)
        os.rmdir(d)
    res = [json.loads(x) for x in out.splitlines() if x.strip()]
    if len(res) < len(cases):
        died = "hang" if err == "timeout" else "died"
        res.append(dict(outcome=died, msg=err[-2000:], log=[], labels=[], checks=0))
    return res


def same_log(a, b):
    if a == "?":  # no exact value for this term
        return True
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_log(x, y) for x, y in zip(a, b))
    if isinstance(b, list):
        return False
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    try:
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    except (OverflowError, ValueError):
        return False


def known_findings(prop):
    fn = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                out.append(line[len("known: property=" + prop + " "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8))
    ap.add_argument("--only", default=None, help="only harnesses whose name contains this")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import importlib

    hm = importlib.import_module("harness." + prop)
    budget = args.budget or (getattr(hm, "QUICK_BUDGET", 420) if tier == "quick" else getattr(hm, "THOROUGH_BUDGET", 3000))
    insts = []
    for h in hm.HARNESSES:
        if args.only and args.only not in h.name:
            continue
        for params in (h.quick if tier == "quick" else h.thorough):
            insts.append(dict(h=h, params=params, open=1, stats=collections.Counter(), reached=collections.Counter(), samples=[], t=0.0))
    opts = dict(query_ms=20000, samples=2 if tier == "quick" else 4, path_s=20, max_viol=3, dump=0 if tier == "quick" else 3)

    ctx = mp.get_context("spawn")
    workers = []
    for _ in range(max(1, args.jobs)):
        a, b = ctx.Pipe()
        p = ctx.Process(target=W.worker_main, args=(b, prop, opts), daemon=True)
        p.start()
        b.close()
        workers.append(dict(p=p, c=a, busy=None))
    pending = collections.deque()
    for i, inst in enumerate(insts):
        pending.append((i, [([], None)]))
    functions = {}
    violations = []
    errors = []
    unsat_dump = []
    incomplete = None
    stop = False
    from multiprocessing.connection import wait

    while True:
        if not stop and time.time() - t0 > budget:
            incomplete = f"time budget of {budget:.0f} s used"
            stop = True
        idle = [w for w in workers if w["busy"] is None]
        while idle and pending and not stop:
            # spread: when there are fewer pending pieces than idle workers, split the largest
            if len(pending) < len(idle):
                big = max(range(len(pending)), key=lambda k: len(pending[k][1]))
                i, items = pending[big]
                if len(items) > 1:
                    del pending[big]
                    n = min(len(items), len(idle) - len(pending))
                    for k in range(n):
                        pending.append((i, items[k::n]))
            i, items = pending.popleft()
            w = idle.pop()
            w["busy"] = (i, time.time())
            w["c"].send((insts[i]["h"].name, insts[i]["params"], items, 1.0, None))
        busy = [w for w in workers if w["busy"] is not None]
        if not busy and (stop or not pending):
            break
        ready = wait([w["c"] for w in busy] + [w["p"].sentinel for w in busy], timeout=5)
        for w in busy:
            got = None
            if w["c"].poll():
                try:
                    got = w["c"].recv()
                except EOFError:
                    got = None
            elif w["p"].is_alive():
                if time.time() - w["busy"][1] > 300:
                    w["p"].kill()
                    got = dict(error="worker stuck")
                else:
                    continue
            i, ts = w["busy"]
            w["busy"] = None
            if got is None:
                errors.append("worker died")
                stop = True
                workers.remove(w)
                continue
            inst = insts[i]
            if "error" in got:
                errors.append(got["error"])
                stop = True
                continue
            inst["stats"].update(got["stats"])
            inst["t"] += time.time() - ts
            for k, v in got["reached"].items():
                inst["reached"][k] += v
            inst["samples"].extend(got["samples"])
            functions.update(got["functions"])
            unsat_dump.extend(got["unsat"])
            for e in got["errors"]:
                errors.append(f"{inst['h'].name} {inst['params']}: {e}")
            for v in got["violations"]:
                v["inst"] = i
                violations.append(v)
            if got["violations"] or got["errors"]:
                stop = True
            if got["frontier"]:
                # oldest (shallow) items in own pieces, so that others can take them
                pending.append((i, got["frontier"]))
    for w in workers:
        try:
            w["c"].send(None)
        except (BrokenPipeError, OSError):
            pass
    for w in workers:
        w["p"].join(2)
        if w["p"].is_alive():
            w["p"].kill()

    # ---- replay of counterexamples on the real code
    confirmed = []
    unconfirmed = []
    for v in violations[:6]:
        inst = insts[v["inst"]]
        cases = [dict(harness=inst["h"].name, params=inst["params"], values=x) for x in v["values"]]
        rs = replay(prop, cases, 120)
        hit = None
        for c, r in zip(cases, rs):
            if r["outcome"] in ("violated", "exception", "hang", "died"):
                hit = (c, r)
                break
        if hit:
            confirmed.append((v, hit[0], hit[1]))
            break
        unconfirmed.append((v, rs))
    # ---- validation of sampled paths
    validated = 0
    mismatches = []
    rng = random.Random(seed)
    if not confirmed:
        cases, meta = [], []
        maxs = 60 if tier == "quick" else 300
        pool = [(inst, s) for inst in insts for s in inst["samples"]]
        rng.shuffle(pool)
        per = collections.Counter()
        for inst, s in pool:
            if len(cases) >= maxs:
                break
            cases.append(dict(harness=inst["h"].name, params=inst["params"], values=s["values"]))
            meta.append(s)
        rs = replay(prop, cases, 300)
        for c, s, r in zip(cases, meta, rs):
            if r["outcome"] in ("violated", "exception", "hang", "died"):
                confirmed.append((dict(kind="replayed path", msg=r.get("msg", "")), c, r))
                break
            if r["outcome"] == "ok" and same_log(s["log"], r["log"]) and s["labels"] == r["labels"]:
                validated += 1
            else:
                mismatches.append((c, s, r))
    # ---- known findings: concrete demonstrations
    kf = []
    for name, desc, fn in getattr(hm, "FINDINGS", []):
        kf.append((name, desc))
    # ---- second solver
    second = dict(tool="cvc5", queries=0, agree=0, disagree=0, undecided=0)
    if tier == "thorough" and unsat_dump and not confirmed:
        rng.shuffle(unsat_dump)
        for q in unsat_dump[:150]:
            r = cvc5(q)
            second["queries"] += 1
            if r == "unsat":
                second["agree"] += 1
            elif r == "sat":
                second["disagree"] += 1
            else:
                second["undecided"] += 1
        if second["disagree"]:
            errors.append(f"second solver disagrees on {second['disagree']} queries")

    # ---- vacuity
    reached = collections.Counter()
    vac = []
    per_h = collections.defaultdict(collections.Counter)
    for inst in insts:
        per_h[inst["h"].name].update(inst["reached"])
        reached.update({f"{inst['h'].name}:{k}": v for k, v in inst["reached"].items()})
    if not confirmed and not stop and not args.only:
        for h in hm.HARNESSES:
            for lab in h.expect:
                if per_h[h.name][lab] == 0:
                    vac.append(f"{h.name}: '{lab}' is not reachable within the bounds")
    tot = collections.Counter()
    for inst in insts:
        tot.update(inst["stats"])
    wall = time.time() - t0
    exhaustive = (not stop) and not errors and tot["unknown"] == 0 and tot["pins"] == 0 and tot["timeouts"] == 0
    if tot["timeouts"] and not incomplete:
        incomplete = f"{tot['timeouts']} paths exceeded the time limit of a path"
    ev = dict(
        property=prop,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=int(tot["paths"]),
            transitions=int(tot["decisions"]),
            traces_validated_against_impl=validated,
            samples=[dict(harness=i["h"].name, params=_js(i["params"]), inputs=s["values"], observed=s["log"][:20], reached=s["labels"]) for i in insts for s in i["samples"][:1]][:12],
            exhaustive=bool(exhaustive),
            method="symbolic execution of the real salabim functions; z3 decides branch feasibility and every assertion; states = completed symbolic paths, transitions = symbolic branch decisions",
            functions_encoded=sorted(functions),
            n_functions_encoded=len(functions),
            harnesses=[dict(name=i["h"].name, params=_js(i["params"]), bounds=i["h"].bounds, paths=int(i["stats"]["paths"]), assertions=int(i["stats"]["checks"]), queries=int(i["stats"]["queries"]), cpu_s=round(i["t"], 2)) for i in insts],
            bounds=getattr(hm, "BOUNDS", ""),
            outside_bounds=getattr(hm, "OUTSIDE", ""),
            queries=int(tot["queries"]),
            queries_sat=int(tot["sat"]),
            queries_unsat=int(tot["unsat"]),
            queries_unknown=int(tot["unknown"]),
            assertions=int(tot["checks"]),
            assertions_discharged_by_query=int(tot["checks_solver"]),
            assertions_implied_by_path_condition=int(tot["checks_path"]),
            assertions_undecided=int(tot["check_unknown"]),
            solver_s=round(tot["solver_s"], 3),
            solver="z3 " + _z3v(),
            forks=int(tot["forks"]),
            infeasible_or_assumed_away=int(tot["aborted"]),
            pinned_to_one_value=int(tot["pins"]),
            reachability={k: int(v) for k, v in sorted(reached.items())},
            encoding_mismatches=len(mismatches),
            incomplete=incomplete or "",
            second_solver=second,
        ),
        assumptions=list(getattr(hm, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS(),
        wall_s=round(wall, 2),
        violations=len(confirmed),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    log(f"{prop} {tier}: paths={tot['paths']} aborted={tot['aborted']} queries={tot['queries']} solver={tot['solver_s']:.1f}s assertions={tot['checks']} (solver {tot['checks_solver']}) "
        f"unknown={tot['unknown']} pins={tot['pins']} symhash={tot['symbolic_hash']} validated={validated} mismatches={len(mismatches)} wall={wall:.1f}s {'EXHAUSTIVE' if exhaustive else 'partial ' + str(incomplete)}")
    if args.v:
        agg = {}
        for inst in insts:
            st = agg.setdefault(inst["h"].name, [collections.Counter(), 0.0, 0, collections.Counter(), (0, None)])
            st[0].update(inst["stats"])
            st[1] += inst["t"]
            st[2] += 1
            st[3].update(inst["reached"])
            if inst["t"] >= st[4][0]:
                st[4] = (inst["t"], inst["params"])
        for n, st in agg.items():
            log(f"   {n} x{st[2]}: paths {st[0]['paths']} aborted {st[0]['aborted']} cpu {st[1]:.1f} q {st[0]['queries']} solver {st[0]['solver_s']:.1f} {dict(st[3])} slowest {st[4][0]:.1f}s {st[4][1]}")
    if confirmed:
        v, c, r = confirmed[0]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        blob = json.dumps(dict(property=prop, cases=[c], message=v["msg"], result=r), indent=1, default=str)
        fn = os.path.join(d, f"{prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
        with open(fn, "w") as f:
            f.write(blob)
        print(f"property {prop} is violated: {v['msg']}")
        print(f"  harness {c['harness']} {c['params']}")
        print(f"  inputs  {json.dumps({k: x[0] for k, x in c['values'].items()})}")
        print(f"  replay on the real code: {r['outcome']}: {r.get('msg', '')}")
        if r.get("tb"):
            print(r["tb"])
        print(f"  re-run: cd /verif && {PY} -m symex.worker {fn}")
        print(f"VIOLATION property={prop} replay={fn}", flush=True)
        return 1
    for name, desc, fn in getattr(hm, "FINDINGS", []):
        if desc in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {desc}")
    rc = 0
    for v, rs in unconfirmed:
        if v["kind"] == "hang":
            # the solver needed more than the time limit of a path; the real code ends normally on this input
            print(f"UNEXPLORED: a path exceeded its time limit in the solver: {v['values'][:1]}")
            continue
        print(f"INCONCLUSIVE: counterexample not reproduced on the real code: {v['msg']} {v['values'][:1]} -> {[r['outcome'] for r in rs]} {v.get('detail', '')}")
        rc = 2
    for e in errors[:5]:
        print("ERROR:", e)
        rc = 2
    for c, s, r in mismatches[:3]:
        print(f"ENCODING MISMATCH: {c} symbolic={s['log']} {s['labels']} real={r['outcome']} {r.get('msg', '')} {r['log']} {r['labels']}")
        rc = 2
    for x in vac:
        print("VACUOUS:", x)
        rc = 2
    if rc == 0:
        print(f"property {prop} held on everything explored ({int(tot['paths'])} paths, {int(tot['queries'])} queries, {int(tot['checks'])} assertions{'' if exhaustive else '; NOT exhaustive: ' + str(incomplete)})")
    return rc


def cvc5(smt):
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=10000", "-"], input="(set-logic ALL)\n" + smt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "error"
    except subprocess.TimeoutExpired:
        return "timeout"


def _z3v():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


def _js(p):
    return {k: (v if isinstance(v, (int, float, str, bool, list, tuple)) or v is None else str(v)) for k, v in p.items()}


def COMMON_ASSUMPTIONS():
    from symex.stubs import LISTED

    return [
        "numbers are exact rationals/reals in the symbolic runs (IEEE rounding is outside); counterexamples are replayed in floating point",
        "single thread; CPython's heapq, bisect, sorted, dict and generators/greenlets are executed, not modelled",
    ] + ["stub: " + x for x in LISTED]


if __name__ == "__main__":
    sys.exit(main())
