"""Seeded search over simulated runs: generate, run, judge, confirm, minimise, report."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import build as B
from . import runner as R

EVID = os.path.join(B.VERIF, "evidence")
KNOWN = os.path.join(B.VERIF, "known_findings.txt")


def plan_text(plan, dec=None):
    """dec: None for a seeded run, else the explicit list of decisions."""
    o = ["seed %d" % plan.get("seed", 1)]
    if dec is not None:
        o.append("explicit 1")
        for s, v, k in dec:
            o.append("dec %d %d %d" % (s, v, k))
    for k, v in sorted(plan.get("p", {}).items()):
        o.append("p %s %.6f" % (k, v))
    for k in ("bb_limit", "classes", "max_faults", "crash_at", "wall", "perturb", "dir_order"):
        if k in plan:
            o.append("%s %d" % (k, plan[k]))
    for k in ("full", "window"):
        if k in plan:
            o.append("%s %d %d" % (k, plan[k][0], plan[k][1]))
    for line in plan["lines"]:
        o.append("L " + line)
    return "\n".join(o) + "\n"


class Stats:
    def __init__(self):
        self.runs = self.lives = 0
        self.simtime = self.switches = self.bb = self.events = 0
        self.fired, self.asked, self.probes, self.ends, self.notes = {}, {}, {}, {}, {}
        self.scheds, self.states = set(), set()
        self.nontrivial = set()
        self.samples = []

    def add_result(self, r):
        self.lives += 1
        if hasattr(r, "hash"):
            self.simtime += r.simtime
            self.switches += r.switches
            self.bb += r.bb
            self.events += r.events
            self.scheds.add(r.sched_hash & 0xffffffffffff)
            self.states.add(r.hash & 0xffffffffffff)
        for k, v in r.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in r.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.ends[r.end()] = self.ends.get(r.end(), 0) + 1

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def merge(self, o):
        for a in ("runs", "lives", "simtime", "switches", "bb", "events"):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        for a in ("fired", "asked", "probes", "ends", "notes"):
            d, e = getattr(self, a), getattr(o, a)
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        for a in ("scheds", "states", "nontrivial"):
            getattr(self, a).update(getattr(o, a))
        self.samples = (self.samples + o.samples)[:8]


class Outcome:
    """What one scenario did: results of its lives, violations found."""

    def __init__(self):
        self.results, self.violations, self.hashes, self.decs = [], [], [], []
        self.nontrivial = False
        self.key = None
        self.notes = {}

    def bad(self, sig, text):
        self.violations.append((sig, text))

    def add(self, r):
        self.results.append(r)
        self.hashes.append(getattr(r, "hash", 0))
        self.decs.append([list(d) for d in r.dec])


def run_scenario(prop, ctx, sc, decs=None):
    o = Outcome()
    prop.before(ctx)
    prop.execute(ctx, sc, o, decs)
    return o


def seed_of(base, pid, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{pid}/{i}".encode()).digest()[:8], "big") >> 1


def worker(prop, base_seed, w, nworkers, deadline, max_runs, q, tier, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    st = Stats()
    found = []
    err = None
    ctx = None
    try:
        ctx = prop.open(w)
        directed = prop.directed(ctx)
        i = w
        sigs = set()
        while time.time() < deadline and i < max_runs and not stop.is_set():
            rng = random.Random(seed_of(base_seed, prop.ID, i))
            sc = directed[i] if i < len(directed) else prop.gen(ctx, rng, tier)
            o = run_scenario(prop, ctx, sc)
            st.runs += 1
            for r in o.results:
                st.add_result(r)
            for k, v in o.notes.items():
                st.note(k, v)
            if o.nontrivial:
                st.nontrivial.add(o.key if o.key is not None else tuple(o.hashes))
            if len(st.samples) < 2 and o.nontrivial:
                st.samples.append(prop.sample(sc, o))
            new = [v for v in o.violations if v[0] not in sigs]
            if new:
                # keep one scenario per kind of violation
                for v in new:
                    sigs.add(v[0])
                found.append((i, sc, new, o.hashes, o.decs))
                if len(found) >= 6:
                    stop.set()
                    break
                if tier == "quick" and any(not prop.known(v[0]) for v in new):
                    # once more, in new processes: what is not seen again does not end the search
                    prop.close(ctx)
                    ctx = prop.open(w)
                    o2 = run_scenario(prop, ctx, sc)
                    if any(v in [x[0] for x in o2.violations] for v in [x[0] for x in new]):
                        stop.set()
                        break
            i += nworkers
    except Exception:
        err = traceback.format_exc()
    finally:
        if ctx is not None:
            try:
                prop.close(ctx)
            except Exception:
                pass
    q.put((w, st, found, err))


# -- minimisation ------------------------------------------------------------------------
def still(prop, ctx, sc, decs, sig):
    try:
        o = run_scenario(prop, ctx, sc, decs)
    except R.ImageError:
        raise
    return o if any(v[0] == sig for v in o.violations) else None


def minimise(prop, ctx, sc, decs, sig, budget_s):
    end = time.time() + budget_s
    best = still(prop, ctx, sc, decs, sig)
    if best is None:
        return None
    # 1. drop parts of the workload (decisions by number keep meaning what they can)
    changed = True
    while changed and time.time() < end:
        changed = False
        for cand in prop.shrink(sc):
            if time.time() > end:
                break
            for d in (decs, [[] for _ in decs]):
                o = still(prop, ctx, cand, d, sig)
                if o is not None:
                    sc, best, changed = cand, o, True
                    decs = d
                    break
            if changed:
                break
    # 2. ddmin over the decisions of every life
    flat = [(l, x) for l, ds in enumerate(decs) for x in ds]
    n = 2
    while flat and time.time() < end:
        size = max(1, len(flat) // n)
        ok = False
        for b in range(0, len(flat), size):
            if time.time() > end:
                break
            part = flat[:b] + flat[b + size:]
            dd = [[x for l2, x in part if l2 == l] for l in range(len(decs))]
            o = still(prop, ctx, sc, dd, sig)
            if o is not None:
                flat, best, ok = part, o, True
                n = max(2, n - 1)
                break
        if not ok:
            if size == 1:
                break
            n = min(len(flat), n * 2)
    dd = [[x for l2, x in flat if l2 == l] for l in range(len(decs))]
    # the exact history: what those decisions lead to, written out in full
    o = still(prop, ctx, sc, dd, sig)
    return sc, dd, (o or best)


# -- known findings ---------------------------------------------------------------------------
def known_findings(pid):
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                sig, _, text = rest.partition(" :: ")
                out.append((sig, text))
    except OSError:
        pass
    return out


# -- the command ----------------------------------------------------------------------------------
def replay(prop, path):
    d = json.load(open(path))
    ctx = prop.open(0)
    try:
        o = run_scenario(prop, ctx, d["scenario"], d["decisions"])
        same = [h for h in o.hashes] == d["hashes"]
        hit = [v for v in o.violations if v[0] == d["signature"]]
        for v in o.violations:
            print("  ", v[0], "--", v[1][:1500])
        if hit:
            print(f"replayed: history {'identical' if same else 'different'}; "
                  f"{d['signature']} reproduced")
            print(f"VIOLATION property={prop.ID} replay={path}")
            return 1
        print("replayed: no violation")
        return 0
    finally:
        prop.close(ctx)


def main(prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int, default=10 ** 9)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        info = B.build()
        if prop.TWIN:
            info["twin"] = B.build(zero=True)
    except B.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    if a.replay:
        return replay(prop, a.replay)
    budget = a.seconds or prop.SECONDS[a.tier]
    prop.load_known()
    t1 = time.time()
    q, stop = mp.Queue(), mp.Event()
    deadline = t1 + budget
    ps = [mp.Process(target=worker, args=(prop, a.seed, w, a.workers, deadline, a.runs, q, a.tier, stop))
          for w in range(a.workers)]
    for p in ps:
        p.start()
    total, found, errs = Stats(), [], []
    left = a.workers
    while left:
        try:
            w, st, f, err = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                errs.append("a worker died without a report")
                break
            continue
        left -= 1
        total.merge(st)
        found += f
        if err:
            errs.append(err)
    for p in ps:
        p.join()
    wall_search = time.time() - t1
    found.sort(key=lambda x: x[0])
    rc = 0
    reported, knownhits, flaky = [], {}, []
    done, tried = set(), {}
    for i, sc, vs, hashes, decs in found:
        for sig, text in vs:
            if sig in done or tried.get(sig, 0) >= 3:
                continue
            tried[sig] = tried.get(sig, 0) + 1
            kt = prop.known(sig)
            if kt:
                knownhits[sig] = kt
                done.add(sig)
                continue
            if len(reported) >= 3:
                continue
            # the same plan, and its decisions written out, in fresh processes
            same_seeded, res, o1 = False, None, Outcome()
            ctx = prop.open(0)
            try:
                o1 = run_scenario(prop, ctx, sc)
                same_seeded = o1.hashes == hashes and any(v[0] == sig for v in o1.violations)
                res = minimise(prop, ctx, sc, decs, sig, prop.SHRINK_S[a.tier])
            except R.ImageError as e:
                errs.append(str(e))
            finally:
                prop.close(ctx)
            if res is None and any(v[0] == sig for v in o1.violations):
                # only the seed itself leads there again: report the run as it was found
                res = (sc, None, o1)
            if res is None:
                flaky.append(f"{sig} (run {i}): not seen again\n  {text[:800]}")
                continue
            msc, mdec, mo = res
            nd = sum(map(len, decs)) if mdec is None else sum(map(len, mdec))
            os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
            path = os.path.join(EVID, "replays", f"{prop.ID}-{len(reported) + 1}.json")
            mtext = [v[1] for v in mo.violations if v[0] == sig][0]
            with open(path, "w") as f:
                json.dump({"property": prop.ID, "signature": sig, "violation": mtext,
                           "found_by": {"base_seed": a.seed, "run": i,
                                        "plan_seed": sc.get("seed"), "hashes": hashes},
                           "scenario": msc, "decisions": mdec, "hashes": mo.hashes,
                           "decisions_before_minimising": sum(map(len, decs)),
                           "decision_format": "[sequence number, value, kind]",
                           "kinds": R.KINDS}, f, indent=1)
            # and once more from the file alone
            ctx = prop.open(0)
            try:
                o2 = run_scenario(prop, ctx, json.loads(json.dumps(msc)), mdec)
            finally:
                prop.close(ctx)
            if not any(v[0] == sig for v in o2.violations):
                flaky.append(f"{sig}: the replay file does not reproduce the run")
                continue
            done.add(sig)
            exact = o2.hashes == mo.hashes and same_seeded
            if not exact:
                mtext += " (the histories of repeated runs differ: the code under test depends " \
                         "on something outside the simulation, such as uninitialised memory)"
            reported.append((sig, mtext, path, nd))
    for sig, text, path, nd in reported:
        print(f"violation {sig}: {text[:2000]}")
        print(f"  {nd} decisions in the minimised schedule and fault trace")
        print(f"VIOLATION property={prop.ID} replay={path}", flush=True)
        rc = 1
    for sig, text in prop.known_list:
        if prop.always_print_known or sig in knownhits:
            print(f"KNOWN-FINDING: property={prop.ID} {sig} {text}")
    if flaky:
        print("NOT REPRODUCIBLE (machinery fault, not a verdict):")
        for x in flaky:
            print("  ", x)
        # one or two are noise of the machine; more of them mean that the machinery is broken
        if rc == 0 and len(flaky) > 2:
            rc = 2
    if errs:
        print("INFRASTRUCTURE ERROR:")
        for e in errs[:3]:
            print(e)
        if rc == 0:
            rc = 2
    evidence(prop, a, total, info, wall_search, time.time() - t0, reported, knownhits)
    print(f"{prop.ID} {a.tier} seed={a.seed}: {total.runs} runs, {len(total.states if prop.ONE_THREAD else total.scheds)} distinct "
          f"{'histories' if prop.ONE_THREAD else 'interleavings'}, {len(total.nontrivial)} distinct nontrivial, "
          f"{len(reported)} violations, {wall_search:.0f} s search + build {info['build_s']} s")
    return rc


def evidence(prop, a, st, info, wall_search, wall, reported, knownhits):
    os.makedirs(EVID, exist_ok=True)
    faults = {k: v for k, v in sorted(st.fired.items()) if k in R.FAULT_KINDS}
    faults.update({k: v for k, v in sorted(st.notes.items()) if k.startswith("fault:")})
    d = {
        "property": prop.ID, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": len(st.nontrivial),
            "rule": prop.RULE,
            "samples": st.samples[:5],
            "simulated_runs": st.lives,
            "runs_per_hour": int(st.lives / max(wall_search, 1e-9) * 3600),
            "simulated_seconds": round(st.simtime / 1e6, 3),
            "faults_injected": faults,
            "schedule_decisions": {k: v for k, v in sorted(st.fired.items())
                                   if k not in R.FAULT_KINDS},
            "distinct_interleavings": len(st.states if prop.ONE_THREAD else st.scheds),
            "interleaving_measure":
                "hash of the whole event log (system calls with results, faults, outputs): there is one thread only"
                if prop.ONE_THREAD else
                "hash of the sequence (thread, basic blocks executed) at every switch of the baton",
            "distinct_histories": len(st.states),
            "thread_switches": st.switches, "basic_blocks": st.bb, "events": st.events,
            "run_ends": st.ends,
            "notes": {k: v for k, v in sorted(st.notes.items())},
            "reach": st.probes,
            "real_code": prop.REAL, "stubs": prop.STUBS,
        },
        "assumptions": list(prop.ASSUMPTIONS) + list(prop.MORE),
        "wall_s": round(wall, 2),
        "violations": len(reported),
        "violation_details": [{"signature": s, "text": t[:2000], "replay": p} for s, t, p, _ in reported],
        "known_findings": sorted(knownhits),
        "build": info,
    }
    with open(os.path.join(EVID, f"{prop.ID}.json"), "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")


class Prop:
    """A property and the machinery that decides it."""
    ID = "?"
    LEVEL = "exploration"
    SECONDS = {"quick": 35, "thorough": 800}
    TWIN = False        # also needs the program whose uninitialised locals hold zeros
    SHRINK_S = {"quick": 25, "thorough": 60}
    RULE = ""
    REAL = []
    STUBS = []
    ASSUMPTIONS = []
    MORE = []
    ONE_THREAD = False
    always_print_known = True
    known_list = []

    def before(self, ctx):
        """Called before every case: nothing of the cases before it may be left."""

    def load_known(self):
        self.known_list = known_findings(self.ID)

    def known(self, sig):
        for s, t in self.known_list:
            if s == sig:
                return t
        return None

    def open(self, w):
        raise NotImplementedError

    def close(self, ctx):
        ctx.close()

    def directed(self, ctx):
        return []

    def shrink(self, sc):
        return []

    def sample(self, sc, o):
        return {"seed": sc.get("seed")}
