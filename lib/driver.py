import collections, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build as B

VERIF = B.VERIF
NPROC = min(8, os.cpu_count() or 8)
SHARDS = 32

TITLES = {}
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Viol:
    def __init__(self, flavor, config, msg, choices, prop=None, extra=None):
        self.flavor, self.config, self.msg, self.choices, self.extra = flavor, config, msg, choices, extra or {}
        self.mcprop = prop

    def rank(self):
        return (len(self.config), len(self.choices))


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def matches(k, v):
    return re.fullmatch(k["config"], v.config) is not None and re.search(k["message"], v.msg) is not None


# ------------------------------------------------------------------ running shards


def run_proc(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


class Engine_Error(Exception):
    pass


def shard(binary, flavor, prop, tier, i, n, deadline, scratch):
    """explores one shard, isolating configurations that kill or hang the process"""
    viols, stats, outs, skip, crashes = [], [], {}, [], 0
    while True:
        left = deadline - time.time()
        if left < 1:
            stats.append(dict(unfinished=1))
            break
        st = os.path.join(scratch, f"{flavor}-{prop}-{i}.status")
        env = dict(os.environ, MC_SKIP=",".join(map(str, skip)))
        rc, o, e = run_proc([binary, "run", prop, tier, str(i), str(n), f"{left:.1f}", st], left + 60, env)
        got_stats = False
        vs = []
        for line in o.splitlines():
            if line.startswith("VIOL "):
                d = json.loads(line[5:])
                vs.append(Viol(flavor, d["config"], d["msg"], d["choices"], prop))
            elif line.startswith("STATS "):
                stats.append(json.loads(line[6:]))
                got_stats = True
            elif line.startswith("OUT "):
                w = line.split()
                outs[int(w[1])] = (w[2], int(w[3]))
        if rc == 0 and got_stats:
            viols += vs
            break
        if rc == 3:
            raise Engine_Error(f"explorer error ({flavor} {prop} shard {i}): {e[-2000:]} {open(st).readline()}")
        # the process died or hung: attribute it
        viols += vs
        try:
            line = open(st).readline().strip()
            idx, cfg = line.split(" ", 1)
        except (OSError, ValueError):
            raise Engine_Error(f"explorer died without a status ({flavor} {prop} shard {i}, rc={rc}): {e[-2000:]}")
        what = describe_death(rc, e)
        ok = True
        for _ in range(2):
            rc2, _, e2 = run_proc([binary, "one", prop, cfg], 120)
            if rc2 == 0:
                ok = False
            if rc2 == 3:
                raise Engine_Error(f"explorer error on {cfg}: {e2[-2000:]}")
        if not ok:
            raise Engine_Error(f"the explorer died on '{cfg}' ({what}) but not when that configuration is run alone")
        viols.append(Viol(flavor, cfg, what, "", prop, {"death": True}))
        skip.append(int(idx))
        crashes += 1
        if crashes >= 3:
            stats.append(dict(unfinished=1))
            break
    return viols, stats, outs


def describe_death(rc, err):
    tail = [l for l in err.splitlines() if l.strip()][-4:]
    t = " / ".join(tail)[-400:]
    if rc is None:
        return f"execution does not terminate {t}"
    if rc < 0:
        return f"the process is killed by {signal.Signals(-rc).name}: {t}"
    return f"the process exits with status {rc}: {t}"


def explore(flavor, prop, tier, seconds):
    binary = B.build(flavor)
    deadline = time.time() + seconds
    scratch = tempfile.mkdtemp(prefix="orxmc")
    viols, outs = [], {}
    tot = collections.Counter()
    depth = 0
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            for v, stats, o in ex.map(lambda i: shard(binary, flavor, prop, tier, i, SHARDS, deadline, scratch), range(SHARDS)):
                viols += v
                outs.update(o)
                for s in stats:
                    depth = max(depth, s.pop("max_depth", 0))
                    total = s.pop("total", 0)
                    for k, x in s.items():
                        tot[k] += x
                    tot["total_configs"] = max(tot["total_configs"], total)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    tot["max_depth"] = depth
    return viols, tot, outs


# ------------------------------------------------------------------ replay files


def confirm(v):
    """re-executes a violating schedule twice; returns (reproduced, trace)"""
    if v.extra.get("custom"):
        return True, v.extra.get("trace", [])
    binary = B.build(v.flavor)
    prop = v.mcprop
    if v.extra.get("death"):
        return True, []
    if v.choices == "" and prop in ("C13",):
        rc, o, e = run_proc([binary, "one", prop, v.config], 600)
        return "VIOL " in o, o.splitlines()[-40:]
    traces = []
    for _ in range(2):
        rc, o, e = run_proc([binary, "replay", prop, v.config, v.choices], 120)
        m = [l for l in o.splitlines() if l.startswith("REPLAY ")]
        got = json.loads(m[-1][7:]) if m else None
        traces.append((got, o.splitlines()))
    ok = traces[0][0] is not None and traces[0][0] == v.msg == traces[1][0] and traces[0][1] == traces[1][1]
    return ok, traces[0][1]


def write_replay(prop, v, trace):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}.json")
    json.dump(dict(property=prop, engine_property=v.mcprop, flavor=v.flavor, config=v.config, choices=v.choices, message=v.msg,
                   extra={k: x for k, x in v.extra.items() if k != "trace"}, trace=trace[-120:]), open(p, "w"), indent=1)
    return p


def replay_file(path):
    d = json.load(open(path))
    if d["extra"].get("probe"):
        import probes
        return probes.replay(d["config"])
    if d["extra"].get("custom"):
        log(json.dumps(d, indent=1))
        log("re-run the check to reproduce")
        return 1
    binary = B.build(d["flavor"])
    if d["extra"].get("death") or d["choices"] == "" and d["engine_property"] in ("C13", "C17"):
        rc, o, e = run_proc([binary, "one", d["engine_property"], d["config"]], 600)
        sys.stdout.write(o + e)
        bad = rc != 0 or "VIOL " in o
    else:
        rc, o, e = run_proc([binary, "replay", d["engine_property"], d["config"], d["choices"]], 120)
        sys.stdout.write(o)
        bad = f'REPLAY {json.dumps("")}' not in o
    log("reproduced" if bad else "not reproduced on the current tree")
    return 1 if bad else 0


# ------------------------------------------------------------------ a check

QUICK_SECONDS = 240
THOROUGH_SECONDS = 780

FLAVORS_OF = {
    "C07": [("rel", "C07"), ("tsan", "C07T")],
    "C16": [("rel", "C16"), ("dbg", "C16")],
    "C17": [("rel", "C17"), ("dbg", "C17")],
}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    runs = FLAVORS_OF.get(prop, [("rel", prop)])
    viols, cov = [], collections.OrderedDict()
    tots, outs = {}, {}
    extra_cov, build_error = {}, None
    if prop == "C14":
        import probes
        try:
            pv, extra_cov = probes.run(tier)
            viols += pv
        except (B.BuildError, Engine_Error) as e:
            log(str(e))
            log("ERROR: cannot decide the client programs")
            return 3
    try:
        if len(runs) > 1:
            with ThreadPoolExecutor(2) as ex:
                list(ex.map(B.build, [f for f, _ in runs]))
        else:
            B.build(runs[0][0])
        budget = QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS - (time.time() - t0)
        for f, p in runs:
            v, tot, o = explore(f, p, tier, budget / len(runs))
            viols += v
            tots[f] = tot
            outs[f] = o
    except B.BuildError as e:
        log(str(e))
        log(f"ERROR: cannot build the explorer for {prop}")
        if prop != "C14":
            return 3
        # a change of the crate's types can break the harness and be reported by the client programs
        build_error = e
    except Engine_Error as e:
        log(f"ERROR: {e}")
        return 3

    if prop == "C17":
        viols += profile_diff(outs)
    # known findings
    known = known_findings(prop)
    reported, fresh = set(), []
    for v in viols:
        hit = next((k for k in known if matches(k, v)), None)
        if hit:
            reported.add(hit["what"])
        else:
            fresh.append(v)
    for w in sorted(reported):
        log(f"KNOWN-FINDING: property={prop} {w}")

    result = 0
    confirmed = 0
    if fresh:
        fresh.sort(key=lambda v: v.rank())
        for v in fresh[:8]:
            ok, trace = confirm(v)
            if ok:
                confirmed = len(fresh)
                path = write_replay(prop, v, trace)
                log(f"property {prop} is violated: {v.msg}")
                log(f"  configuration: {v.config}   [{v.flavor}]")
                for l in trace[-60:]:
                    log("  " + l.rstrip())
                log(f"  {len(fresh)} violating configurations were found (exploration stops at 20 per shard)")
                log(f"VIOLATION property={prop} replay={path}")
                result = 1
                break
        else:
            log(f"ERROR: violations were found but do not reproduce on replay: {fresh[0].config}: {fresh[0].msg}")
            return 3

    s = collections.Counter()
    for t in tots.values():
        s.update({k: v for k, v in t.items() if k not in ("max_depth", "total_configs")})
    exhaustive = s["capped"] == 0 and s["skipped"] == 0 and s["unfinished"] == 0
    if build_error is not None and result == 0:
        return 3
    samples = sample_cases(prop, runs, tier) if build_error is None else ["none: the harness does not build"]
    cov.update(
        states=s["states"],
        transitions=s["transitions"],
        traces_validated_against_impl=s["complete"],
        executions=s["execs"],
        executions_cut_at_known_state=s["pruned"],
        configurations=s["configs"],
        multi_thread_configurations=s["multi"],
        configurations_cut_by_time=s["capped"] + s["skipped"],
        calls_judged=s["deliveries"],
        max_scheduling_depth=max([t["max_depth"] for t in tots.values()] + [0]),
        exhaustive=exhaustive,
        bounds="every configuration enumerated by harness/src/props.rs for this property and tier; within each, all "
               "interleavings at atomic-operation granularity without a preemption bound",
        conformance="the explored transition system is the compiled crate itself (std atomics replaced by the controlled "
                    "scheduler); every trace is an execution of the implementation",
        flavors={f: dict(t) for f, t in tots.items()},
        samples=samples,
    )
    cov.update(extra_cov)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    json.dump(ev, open(ev_path, "w"), indent=1)
    log(f"{prop} {tier}: {s['configs']} configurations, {s['execs']} executions ({s['complete']} complete), {s['states']} states, "
        f"{s['transitions']} transitions, exhaustive={exhaustive}, {time.time()-t0:.1f}s")
    return result


ASSUME = [
    "sequentially consistent interleavings of atomic operations, except where a configuration allows stale loads (C07)",
    "small scope: the stated lengths, thread counts and operation sequences",
    "the std stand-in mcstd implements the std::sync and core::sync API the crate uses",
    "rustc, LLVM, the host CPU",
]


def sample_cases(prop, runs, tier):
    f, p = runs[0]
    binary = B.build(f)
    rc, o, e = run_proc([binary, "samples", p, tier], 120)
    out = []
    for line in o.splitlines():
        if line.startswith("SAMPLE "):
            out.append(json.loads(line[7:]))
    return out or ["none"]


def profile_diff(outs):
    a, b = outs["rel"], outs["dbg"]
    viols = []
    diff = sorted(i for i in set(a) & set(b) if a[i] != b[i])
    if diff:
        rel, dbg = B.build("rel"), B.build("dbg")
        cfgs = run_proc([rel, "list", "C17", os.environ.get("VERIF_TIER_RUN", "quick")], 120)[1].splitlines()
        for i in diff[:10]:
            texts = []
            for binary in (rel, dbg):
                o = run_proc([binary, "one", "C17", cfgs[i]], 600)[1].splitlines()
                texts.append([l.strip() for l in o if l.startswith("  ")])
            only_r = [x for x in texts[0] if x not in texts[1]][:3]
            only_d = [x for x in texts[1] if x not in texts[0]][:3]
            viols.append(Viol("rel+dbg", cfgs[i], f"outcomes differ between optimized and debug builds; optimized only: {only_r}; debug only: {only_d}",
                              "", "C17", {"custom": True, "trace": []}))
    return viols


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "--setup":
        try:
            with ThreadPoolExecutor(3) as ex:
                list(ex.map(B.build, ["rel", "dbg", "tsan"]))
            import probes
            probes.base()
        except B.BuildError as e:
            log(str(e))
            return 3
        return 0
    if argv[0] == "--replay":
        return replay_file(argv[1])
    if argv[0] == "--selftest":
        return subprocess.run([B.build("rel"), "selftest"]).returncode
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER_RUN"] = tier
    return check(argv[0], tier)
