#!/usr/bin/env python3
"""Decide one property of sqrid: check.py PROPERTY | check.py --replay FILE

1. build the driver against /repo's working tree and let it record sessions;
2. have TLC check that every recorded session is a behaviour of the
   specification (specs/Trace*.tla);
3. have TLC check the specification itself on small instances (specs/MC*.tla).

Exit status: 0 the property held on everything explored; 1 it is violated
(VIOLATION line); 2 the machinery failed.
"""
import collections, concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPECS = os.path.join(ROOT, "specs")
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

# Kinds of sessions whose specification has steps that are not recorded
SILENT = {"PathSearch", "CameFrom"}

TLA = "/opt/veriftools/tla"
JAVA_CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known-findings.txt")


class ToolError(Exception):
    pass


class Broken:
    """A driver that the compiler rejects, and the session that tells so"""
    def __init__(self, trace):
        self.trace = trace


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


# --------------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, workers="auto", coverage=False, timeout=800, simulate=None, heap="6g"):
    """Run TLC on a module of specs/; returns (exit status, output)."""
    meta = os.path.join(work, "tlc-" + cfg.replace(".cfg", "") + ("-" + str(workers)))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAVA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += simulate
    cmd += [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, f"tlc-{module}-{cfg}.log"), "w") as f:
        f.write(p.stdout)
    return p.returncode, p.stdout


def counts(out):
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",")):
        pass
    if not m:
        m2 = None
        for m2 in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
        m = m2
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def model(job, work):
    """Check one small instance of the specification."""
    module, cfg = job["module"], job.get("cfg", job["module"] + ".cfg")
    rc, out = tlc(module, cfg, work, workers=job.get("workers", 2), coverage=job.get("coverage", False),
                  timeout=job.get("timeout", 700), simulate=job.get("simulate"))
    if job.get("expect") == "violation":
        # A deliberately wrong variant: the model has to be able to tell
        if rc == 0 or not re.search(r"Invariant \w+ is violated|is violated|properties were violated|Temporal", out):
            raise ToolError(f"the specification {module} ({cfg}) accepts a variant that is wrong:\n" + tail(out))
        gen, dist = counts(out)
        return {"module": module, "cfg": cfg, "generated": gen, "distinct": dist, "actions": {},
                "note": "wrong variant, rejected as it should be"}
    if rc != 0 or "No error has been found" not in out and not job.get("simulate"):
        raise ToolError(f"the specification {module} ({cfg}) does not hold:\n" + tail(out))
    gen, dist = counts(out)
    acts = {}
    for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", out, re.M):
        acts[m.group(1)] = acts.get(m.group(1), 0) + int(m.group(3))
    never = [a for a, n in acts.items() if n == 0]
    if never:
        raise ToolError(f"vacuous specification {module}: actions never taken: {never}")
    return {"module": module, "cfg": cfg, "generated": gen, "distinct": dist, "actions": acts}


def tail(out, n=60):
    return "\n".join(out.splitlines()[-n:])


# ------------------------------------------------------------------- driver

def build(binname, work, profile="dev"):
    target = os.path.join(ROOT, "work", "target")
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = target
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--bin", binname, "--profile", profile],
                       cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if "error[E0080]" in p.stdout and not re.search(r"error\[E0(?!080)\d+\]", p.stdout):
            # The driver only uses what has to be accepted, but a constant of
            # the library could not be evaluated for it.
            trace = os.path.join(work, f"build-{profile}.ndjson")
            msgs = re.findall(r"^error\[E0080\].*(?:\n.*){0,3}", p.stdout, re.M)[:4]
            with open(trace, "w") as f:
                f.write(json.dumps({"k": "Build", "p": {"driver": binname},
                                    "ev": [{"op": "compile", "r": "rejected", "errors": msgs}]}) + "\n")
            return Broken(trace)
        raise ToolError("the driver does not build against /repo:\n" + tail(p.stdout))
    return os.path.join(target, "debug" if profile == "dev" else profile, binname)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(exe, prop, work, tier, seed, name="trace.ndjson"):
    """Record the sessions; a driver that dies leaves a session that ends in
    an `abort` event, which no specification allows."""
    trace = os.path.join(work, name)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier)
    def run(flush):
        e = dict(env)
        if flush:
            e["HARNESS_FLUSH"] = "1"
        try:
            return subprocess.run([exe, prop, trace], env=e, cwd=work, preexec_fn=limits,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  errors="replace", timeout=700)
        except subprocess.TimeoutExpired:
            raise ToolError("the driver did not finish in 700 s")
    p = run(False)
    if p.returncode == 0:
        return trace
    if p.returncode == 101:
        # A panic outside of a guarded call
        print("the driver panicked")
    if p.returncode == 2:
        raise ToolError("driver: " + p.stderr[-2000:])
    p = run(True)
    if p.returncode == 0:
        raise ToolError("the driver died once, but not when it was run again")
    how = "hang" if p.returncode == 86 else ("signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode)
    cur = trace + ".cur"
    if not os.path.exists(cur):
        raise ToolError("driver died before its first session: " + p.stderr[-2000:])
    lines = open(cur, errors="replace").read().splitlines()
    head = json.loads(lines[0])
    evs = [json.loads(l) for l in lines[1:] if not l.startswith("about ")]
    about = [l[6:] for l in lines[1:] if l.startswith("about ")][-1:]
    evs.append({"op": "abort", "how": how, "during": about, "stderr": p.stderr[-500:]})
    head["ev"] = evs
    # Keep only the broken session, it decides
    with open(trace, "w") as f:
        f.write(json.dumps(head) + "\n")
    return trace


# -------------------------------------------------------------------- proofs

def prove(module, work):
    """Have the TLA+ proof system check the proofs of a module. They are about
    the specification alone, so that what is not proved (again) is only noted."""
    d = os.path.join(work, "proofs-" + module)
    shutil.copytree(SPECS, d)
    try:
        p = subprocess.run(["tlapm", "--cleanfp", "--threads", "2", module + ".tla"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=400)
        done = re.search(r"All (\d+) obligations? proved", p.stdout)
        res = {"module": module, "obligations": int(done.group(1)) if done else 0, "proved": bool(done)}
    except (OSError, subprocess.TimeoutExpired):
        res = {"module": module, "obligations": 0, "proved": False}
    if not res["proved"]:
        print("note: the proofs of", module, "were not found this time")
    shutil.rmtree(d, ignore_errors=True)
    return res


# ------------------------------------------------------------ trace checking

def check_sessions(kind, lines, work, timeout=800):
    """TLC on the sessions of one kind. Returns (bad, generated, distinct), bad
    being None or (index of session, events consumed, TLC's output)."""
    path = os.path.join(work, f"sessions-{kind}.ndjson")
    with open(path, "w") as f:
        f.write("".join(lines))
    cfg = f"Trace{kind}.cfg"
    if not os.path.exists(os.path.join(SPECS, cfg)):
        cfg = "Trace.cfg"
    rc, out = tlc(f"Trace{kind}", cfg, work, env={"TRACE": path}, timeout=timeout)
    gen, dist = counts(out)
    if rc == 0 and "No error has been found" in out:
        want = 0
        for l in lines:
            want += 1 + len(json.loads(l)["ev"])
        # Steps that are not observed add states
        if dist < want or dist != want and kind not in SILENT:
            raise ToolError(f"{kind}: {dist} distinct states for {want} expected")
        return None, gen, dist
    # A rejection, if TLC shows the state it got stuck in
    if re.search(r"StackOverflow|OutOfMemory|Java heap space|NullPointer|IllegalState", out):
        raise ToolError(f"TLC failed on Trace{kind} (exit {rc}):\n" + tail(out))
    sids = re.findall(r"/\\ sid = (\d+)", out)
    idxs = re.findall(r"/\\ idx = (\d+)", out)
    if sids and idxs and ("Deadlock reached" in out or "is violated" in out or "The behavior up to this point is" in out
                          or "Error: " in out and "evaluating" in out):
        return (int(sids[-1]) - 1, int(idxs[-1]), out), gen, dist
    raise ToolError(f"TLC failed on Trace{kind} (exit {rc}):\n" + tail(out))


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop:
                    res.append(k)
    return res


def replay_file(prop, session, idx, out):
    d = os.path.join(ROOT, "work", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(session).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    ev = session["ev"]
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": session["k"], "params": session["p"],
                   "events_accepted": idx,
                   "rejected_event": ev[idx] if idx < len(ev) else None,
                   "session": session,
                   "how_to_replay": f"python3 tools/check.py --replay {path}",
                   "tlc": tail(out, 40)}, f, indent=1)
    return path


def record(binname, prop, work, tier, seed, profile):
    """Build a driver and let it record; returns the file of sessions."""
    exe = build(binname, work, profile)
    if isinstance(exe, Broken):
        return exe.trace
    return drive(exe, prop, work, tier, seed, f"trace-{binname}-{profile}.ndjson")


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        work = os.path.join(ROOT, "work", "replay")
        os.makedirs(work, exist_ok=True)
        bad, _, _ = check_sessions(r["kind"], [json.dumps(r["session"]) + "\n"], work)
        if bad is None:
            print("accepted by the specification")
            return 0
        print(bad[2])
        print("rejected after", bad[1], "events:", json.dumps(r["session"]["ev"][bad[1]:bad[1] + 1]))
        return 1
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        die("VERIF_TIER is neither quick nor thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    t0 = time.time()
    work = os.path.join(ROOT, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    jobs = list(plan["models"])
    if tier == "thorough":
        jobs = [dict(j, coverage=True) for j in jobs] + list(plan.get("models_thorough", []))
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=3)
    models = [pool.submit(model, j, work) for j in jobs]
    proofs = [pool.submit(prove, n, work) for n in plan.get("proofs", [])] if tier == "thorough" else []

    violations = 0
    kinds = collections.OrderedDict()
    samples, ops = [], collections.Counter()
    states = transitions = traces = events = 0
    knowns = known_findings(prop)
    known_lines = []
    rounds = plan.get("thorough_rounds", 3) if tier == "thorough" else 1
    details = {}
    again = [0, 0]
    for rnd in range(rounds):
        # A round that takes long isn't begun again
        if rnd > 0 and time.time() - t0 > 800 * rnd / (rnd + 1):
            break
        kinds = collections.OrderedDict()
        for source in plan["sources"]:
            if rnd > 0 and source.get("once"):
                continue
            if "bin" in source:
                # What is built as in a release has to do just the same; only
                # sessions that differ have to be checked, too
                args = (source["bin"], prop, work, tier, seed * 1000 + rnd)
                profiles = ["dev", "optimised" if rnd % 2 else "unchecked"]
                with concurrent.futures.ThreadPoolExecutor() as two:
                    files = list(two.map(lambda p: record(*args, p), profiles))
            else:
                files = [source["run"](work, tier, seed * 1000 + rnd)]
            seen = set()
            for n, trace in enumerate(files):
                with open(trace) as f:
                    for line in f:
                        if n > 0:
                            again[0] += 1
                            if hash(line) in seen:
                                continue
                            again[1] += 1
                        seen.add(hash(line))
                        s = json.loads(line)
                        kinds.setdefault(s["k"], []).append((s, line))
        if not kinds:
            raise ToolError("no sessions were recorded")
        for kind, pairs in kinds.items():
            fresh = []
            for s, line in pairs:
                k = next((k for k in knowns if k["k"] == s["k"] and k["p"] == s["p"] and k["ev"] in s["ev"]), None)
                if k is None:
                    fresh.append((s, line))
                    continue
                bad, _, _ = check_sessions(kind, [line], work)
                if bad is None:
                    print(f"note: listed finding of {prop} no longer fails: {k['what']}")
                elif s["ev"][bad[1]] == k["ev"]:
                    msg = f"KNOWN-FINDING: property={prop} {k['what']}"
                    if msg not in known_lines:
                        known_lines.append(msg)
                        print(msg)
                else:
                    violations += 1
                    path = replay_file(prop, s, bad[1], bad[2])
                    print(f"VIOLATION property={prop} replay={path}")
            for s, line in fresh:
                for e in s["ev"]:
                    ops[kind + "." + e["op"]] += 1
                events += len(s["ev"])
            lines = [l for _, l in fresh]
            if not lines:
                continue
            bad, gen, dist = check_sessions(kind, lines, work)
            transitions += gen
            states += dist
            traces += len(lines)
            d = details.setdefault(kind, {"sessions": 0, "events": 0})
            d["sessions"] += len(lines)
            d["events"] += sum(len(s["ev"]) for s, _ in fresh)
            if rnd == 0:
                for s, line in (fresh[0], fresh[len(fresh) // 2], fresh[-1]):
                    samples.append({"kind": kind, "params": clip(s["p"]), "events": clip(s["ev"][:3])})
            if bad is not None:
                i, n, out = bad
                s = fresh[i][0]
                violations += 1
                path = replay_file(prop, s, n, out)
                print(f"{kind}: session {json.dumps(clip(s['p']))} is rejected after {n} events")
                if n < len(s["ev"]):
                    print("  rejected event:", json.dumps(clip(s["ev"][n])))
                print(f"VIOLATION property={prop} replay={path}")
                break
        if violations:
            break
    mres = [f.result() for f in models]
    pres = [f.result() for f in proofs]
    missing = [o for o in plan.get("ops", []) if ops[o] == 0]
    if not violations and missing:
        raise ToolError(f"events that were never exercised: {missing}")
    for m in mres:
        states += m["distinct"]
        transitions += m["generated"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples[:12],
            "events_validated": events,
            "events_by_operation": dict(sorted(ops.items())),
            "trace_specifications": details,
            "models": mres,
            "proofs": pres,
            "sessions_again_without_debug_assertions": again[0],
            "of_them_different": again[1],
            "known_findings": known_lines,
        },
        "assumptions": plan.get("assumptions", []) + [
            "TLC and the TLA+ community modules; rustc; the driver records arguments and results faithfully"],
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        return 1
    for n in os.listdir(work):
        if n.endswith(".ndjson"):
            os.remove(os.path.join(work, n))
    print(f"OK property={prop} tier={tier}: {traces} sessions, {events} events, {states} states, {ev['wall_s']} s")
    return 0


def clip(v, n=400):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + "..."


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("ERROR:", e)
        rc = 2
    except Exception:
        import traceback
        print("ERROR:", traceback.format_exc())
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
