#!/usr/bin/env python3
"""Decides one property: model-checks the specification, drives the library,
and has TLC judge the recorded calls.   usage: bin/check.py C01

exit 0: held; exit 1 and a VIOLATION line: TLC rejected something the code
did; exit 2: the check itself failed."""
import json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
# the properties of helpers that are public but not meant for users; the harness
# with calls of those is built apart
INNER = {"C19", "C20", "C21", "C22", "C23"}
TARGET = "target-inner" if sys.argv[1:2] and sys.argv[1] in INNER else "target"
EXE = os.path.join(HARNESS, TARGET, "release", "h3conf")

# property: models (module, quick configuration, thorough configuration)
IDX = ("MCIndex", "MCIndex", "MCIndexT")
GRID = ("MCGrid", "MCGrid", "MCGridT")
TREE = ("MCTree", "MCTree", "MCTreeT")
POINT = ("MCPoint", "MCPoint", "MCPointT")
EDGE = ("MCEdge", "MCEdge", "MCEdgeT")
WALK = ("MCWalk", "MCWalk", "MCWalkT")
ANGLE = ("MCAngle", "MCAngle", "MCAngleT")
DISKS = ("MCDisk", "MCDiskA", "MCDiskAT")
NEAR = ("MCNear", "MCNear", "MCNearT")
ADDRESS = ("MCAddress", "MCAddress", "MCAddressT")
TURN = ("MCTurn", "MCTurn", "MCTurnT")
CLIENTS = ("MCClients", "MCClients", "MCClientsT")
SEARCH = ("MCDisk", "MCDiskB", "MCDiskBT")
MODELS = {
    "C01": [IDX], "C02": [POINT], "C03": [POINT], "C04": [GRID, POINT], "C05": [TREE], "C06": [TREE],
    "C07": [TREE], "C08": [POINT], "C09": [GRID], "C10": [SEARCH, GRID], "C11": [DISKS, NEAR], "C12": [EDGE],
    "C13": [EDGE, IDX], "C14": [GRID, TREE], "C15": [IDX], "C16": [IDX], "C17": [WALK, EDGE], "C18": [ANGLE],
    "C19": [ADDRESS], "C20": [TURN, ADDRESS], "C21": [TURN], "C22": [ANGLE], "C23": [IDX],
    "C24": [CLIENTS],
}
ENV = dict(os.environ)
ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["JAVA_TOOL_OPTIONS"] = "-Xss64m"
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


STATEFUL = ("step", "walk", "go", "at", "iter", "next", "jump", "left", "last", "hint")


class Broken(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def tlc(name, module, cfg, out, workers, timeout, env=None):
    md = os.path.join(out, "md-" + name)
    log = os.path.join(out, name + ".log")
    e = dict(ENV)
    e.update(env or {})
    t = time.time()
    with open(log, "w") as f:
        try:
            rc = subprocess.run(
                ["tlc", "-workers", str(workers), "-metadir", md, "-config", cfg + ".cfg", module + ".tla"],
                cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(md, ignore_errors=True)
    text = open(log).read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"rc": rc, "log": log, "text": text, "generated": gen, "distinct": dist, "wall_s": round(time.time() - t, 1)}


# properties for which TLC makes up histories that the code has to follow
MADE_UP = {"C24": ("GenClients", 63)}


def make_up(prop, part, out, seed, tier):
    """histories, with the answers expected, each in a file"""
    module, depth = MADE_UP[prop]
    to = os.path.join(out, "runs%d" % part)
    os.makedirs(to)
    log = os.path.join(out, "make%d.log" % part)
    md = os.path.join(out, "md-make%d" % part)
    num = 200 if tier == "quick" else 8000
    with open(log, "w") as f:
        rc = subprocess.run(["tlc", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed * 100 + part),
                             "-workers", "1", "-metadir", md, "-config", module + ".cfg", module + ".tla"],
                            cwd=SPEC, env=dict(ENV, H3_RUNS=to), stdout=f, stderr=subprocess.STDOUT,
                            timeout=400 if tier == "quick" else 4 * 3600).returncode
    shutil.rmtree(md, ignore_errors=True)
    if rc != 0 or not os.listdir(to):
        raise Broken("no histories were made up (rc %d), see %s" % (rc, log))
    return len(os.listdir(to))


def build(out):
    log = os.path.join(out, "build.log")
    with open(log, "w") as f:
        more = ["--features", "inner"] if TARGET == "target-inner" else []
        rc = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", TARGET] + more, cwd=HARNESS, env=ENV,
                            stdout=f, stderr=subprocess.STDOUT, timeout=800).returncode
    if rc != 0:
        raise Broken("the harness does not build against /repo, see " + log + "\n" + open(log).read()[-3000:])


def literals(out):
    """the numbers in the library's sources: hints for the generators"""
    found = set()
    for d, _, files in os.walk("/repo/src"):
        for f in sorted(files):
            if f.endswith(".rs"):
                text = open(os.path.join(d, f), errors="replace").read()
                for m in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][-+]?\d+)?)", text):
                    m = m.replace("_", "")
                    try:
                        found.add(str(int(m, 0)) if re.fullmatch(r"0[xbo].*|\d+", m) else repr(float(m)))
                    except ValueError:
                        pass
    path = os.path.join(out, "literals.txt")
    open(path, "w").write("\n".join(sorted(found)) + "\n")
    ENV["H3_LITERALS"] = path


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def drive(prop, seed, tier, tables, out, timeout):
    """Runs the calls.  None if that went well, else events of calls that hung or aborted."""
    for attempt in (1, 2):
        try:
            p = subprocess.run([EXE, "work", prop, tables, str(seed), tier, out], env=ENV, timeout=timeout,
                               preexec_fn=limits(20), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rc, text = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, text = -1, "timeout"
        if rc == 0:
            return None
        # the calls in progress, alone
        got = subprocess.run([EXE, "active", os.path.join(out, "slots")], env=ENV, stdout=subprocess.PIPE).stdout.decode()
        events = []
        for line in got.splitlines()[:16]:
            args = line.split()[1:]
            try:
                q = subprocess.run([EXE, "one", tables] + args, env=ENV, timeout=40, preexec_fn=limits(8),
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                how = None if q.returncode == 0 else "abort"
            except subprocess.TimeoutExpired:
                how = "hang"
            if how is None and attempt == 2 and rc == 86 and int(line.split()[0]) > 20000:
                how = "hang"        # not alone, but among others, twice
            if how:
                e = subprocess.run([EXE, "event", tables, how] + args, env=ENV, stdout=subprocess.PIPE).stdout.decode()
                events.append(e.strip())
                if len(events) == 3:
                    break
        if events:
            return events
    raise Broken("the harness ended with %s and no call could be blamed: %s" % (rc, text[-500:]))


def known(prop):
    """ids of calls listed as known findings of the property"""
    v = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=\[([^\]]*)\] (.*)", line)
            if m and m.group(1) == prop:
                v[m.group(2)] = m.group(3).strip()
    return v


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = os.path.join(HERE, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tables = os.path.join(out, "tables.json")
    longest = 700 if tier == "quick" else 6 * 3600

    # the harness is built and the specification's tables are written; beside
    # that, the specification itself is checked
    results, errors = {}, []

    def task(name, f):
        def g():
            try:
                results[name] = f()
            except Exception as e:  # noqa
                errors.append("%s: %s" % (name, e))
        t = threading.Thread(target=g)
        t.start()
        return t

    first = [task("build", lambda: build(out)),
             task("export", lambda: tlc("export", "H3Export", "H3Export", out, 1, 300, {"H3_TABLES": tables}))]
    models = [task("model:" + m[1 if tier == "quick" else 2],
                   lambda m=m: tlc(m[1], m[0], m[1 if tier == "quick" else 2], out, 4, longest))
              for m in MODELS[prop]]
    if prop in MADE_UP:
        first += [task("make%d" % i, lambda i=i: make_up(prop, i, out, seed, tier)) for i in range(4)]
        ENV["H3_RUNS"] = ":".join(os.path.join(out, "runs%d" % i) for i in range(4))
    for t in first:
        t.join()
    if errors:
        raise Broken("; ".join(errors))
    if results["export"]["rc"] != 0:
        raise Broken("table export failed, see " + results["export"]["log"])

    literals(out)
    events = drive(prop, seed, tier, tables, out, longest)
    trace, parts = os.path.join(out, "trace.ndjson"), os.path.join(out, "parts.json")
    stats = None
    if events is None:
        stats = json.load(open(os.path.join(out, "stats.json")))
        say("drove the library: %d calls, %d recorded, %d suspicious" %
            (stats["evaluations"], stats["events"], stats["suspicious"]))
    else:
        with open(trace, "w") as f:
            f.writelines(e + "\n" for e in events)
        json.dump([[i + 1, i + 1] for i in range(len(events))], open(parts, "w"))
        say("the harness was stopped by calls that hang or abort")

    r = tlc("trace", "H3Trace", "H3Trace", out, 8, longest, {"H3_TRACE": trace, "H3_PARTS": parts})
    lines = open(trace).read().splitlines()
    rejected = sorted({int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', r["text"])})
    canaries = set(stats["canaries"]) if stats else set()
    bad = [i for i in rejected if i not in canaries]
    if r["rc"] != 0 and not bad:
        raise Broken("trace validation failed (rc %d), see %s\n%s" % (r["rc"], r["log"], r["text"][-2000:]))

    for t in models:
        t.join()
    if errors:
        raise Broken("; ".join(errors))
    for name, m in results.items():
        if name.startswith("model:") and m["rc"] != 0:
            raise Broken("%s failed (rc %d), see %s" % (name, m["rc"], m["log"]))

    # what TLC rejected
    listed = known(prop)
    fresh, quiet = [], {}
    for i in bad:
        e = json.loads(lines[i - 1])
        if e.get("id") in listed:
            quiet[e["id"]] = listed[e["id"]]
        else:
            fresh.append(i)
    for k, what in sorted(quiet.items()):
        say("KNOWN-FINDING: property=%s %s" % (prop, what))

    n_parts = len(json.load(open(parts)))
    models_done = {k[6:]: {"states": m["distinct"], "transitions": m["generated"], "wall_s": m["wall_s"]}
                   for k, m in results.items() if k.startswith("model:")}
    cov = {
        "states": sum(m["states"] for m in models_done.values()) + r["distinct"],
        "transitions": sum(m["transitions"] for m in models_done.values()) + r["generated"],
        "traces_validated_against_impl": n_parts,
        "events_judged_by_tlc": len(lines) - len(canaries),
        "falsified_events_rejected": len(canaries & set(rejected)),
        "models": models_done,
        "samples": (stats or {}).get("samples", []) or [json.loads(x).get("raw", "") for x in lines[:3]],
    }
    if stats:
        cov.update({
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": stats["distinct"],
            "rule": "calls made on the real library: complete families at coarse resolutions, generated ones (seeded) at all "
                    "resolutions, with the mix under 'kinds'; distinct by call and arguments (generated ones counted up to a cap "
                    "per job, so a lower bound). All are screened natively against the specification's tables; every "
                    "suspicious one and a sample of the rest is judged by TLC.",
            "calls": stats["counts"], "kinds": stats["kinds"], "stateful_runs": stats["runs"],
        })
    made = sum(v for k, v in results.items() if k.startswith("make"))
    if made:
        cov["histories_made_up_by_the_specification_and_followed"] = made
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": [
            "the specification (spec/*.tla) states the intended grid; it derives the neighbour tables from the icosahedron's gluing "
            "and the base cells' homes, and shares no table of the code but the homes",
            "calls that the native screen passes and that are not in the sample are trusted to the screen",
            "points are projected by the harness's own double precision geometry, within a stated tolerance",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if fresh:
        replay = os.path.join(out, "violation.ndjson")
        part_of = json.load(open(parts))
        with open(replay, "w") as f:
            for i in fresh[:100]:
                a = [p for p in part_of if p[0] <= i <= p[1]]
                e = json.loads(lines[i - 1])
                if e["op"] in STATEFUL or prop == "C24":      # with what led to it
                    for j in range(a[0][0], i):
                        if json.loads(lines[j - 1])["op"] in STATEFUL or prop == "C24":
                            f.write(lines[j - 1] + "\n")
                f.write(lines[i - 1] + "\n")
        for i in fresh[:5]:
            say("rejected by the specification: " + json.loads(lines[i - 1]).get("raw", lines[i - 1]))
        say("%d rejected in all; to rerun one: bin/replay.sh '<its id>'" % len(fresh))
        say("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, HERE)))
        return 1
    if stats is None:
        raise Broken("calls hung or aborted, but the specification accepts that")
    missed = canaries - set(rejected)
    if missed:
        raise Broken("the specification does not reject falsified events, lines %s of %s" % (sorted(missed)[:5], trace))
    if stats["suspicious"] and not quiet:
        raise Broken("the native screen and the specification disagree, see the first lines of " + trace)
    say("%s holds on what was explored: %d calls, %d judged by TLC, models %s, %.0f s" %
        (prop, stats["evaluations"], cov["events_judged_by_tlc"],
         ", ".join("%s %d states" % (k, m["states"]) for k, m in models_done.items()), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        say("CHECK FAILED: %s" % e)
        sys.exit(2)
