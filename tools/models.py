"""Model checking of a specification machine, replay of its behaviours into the real code, and
validation of traces recorded by the machine's own driver."""
import json, os
from vt import HarnessError, Crash, short


def fatal(run, e, what):
    """The driver died or hung: an observation if it does so again."""
    try:
        run.go(e.cmd)
    except Crash as e2:
        first = (e2.stderr.strip().splitlines() or ["?"])[0][:200]
        if "github.com/protolambda/zssz" not in e2.stderr and e2.rc != 7:
            raise HarnessError("driver of %s: %s" % (what, e2.stderr[-3000:]))
        run.violation("%s: %s" % ("the process hangs" if e2.rc == 7 else "the process dies", first),
                      {"stderr": e2.stderr[-3000:]}, "run: " + " ".join(e2.cmd))
        return
    raise HarnessError("the driver died, but not again: " + e.stderr[-3000:])


def records(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def replay(run, module, cmd, what, env=None, args=(), cfg=None, timeout=800, heap="10g", catalog=False, model=None):
    """TLC explores the machine and emits its behaviours; the driver runs them against the real code."""
    binary = run.build(cmd, catalog=catalog)
    e = dict(env or {}, EMIT="1")
    if catalog:
        e["CATALOG"] = run.catalog
    r = model or run.model(module, cfg or module + ".cfg", env=e, timeout=timeout, heap=heap)
    out = run.path("mismatches-%s.ndjson" % module)
    a = [binary, "-replay", os.path.join(r["dir"], "out.txt"), "-out", out] + list(args)
    try:
        st = run.go(a)
    except Crash as c:
        fatal(run, c, what)
        return r
    run.note("replayed", what, st)
    if not st["scenarios"]:
        raise HarnessError("no behaviours of " + module)
    for m in records(out)[:5]:
        run.violation(m["why"], m, "replay of %s: %s" % (module, " ".join(a)))
    run.traces += st["scenarios"] - st["mismatches"]
    run.part("behaviours of %s.tla replayed: %s" % (module, what), states=r["distinct"], tlc_s=r["secs"], **st)
    return r


def validate(run, module, trace, env=None, heap="10g"):
    e = dict(env or {}, TRACE=trace, PROP=run.pid)
    r = run.tlc(module, module + ".cfg", heap=heap, timeout=800 if run.quick else 3 * 3600, env=e, extra=["-deadlock"])
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise HarnessError("TLC on the trace:\n" + r["out"][-3000:])
    rej = []
    for line in r["out"].splitlines():
        if line.startswith('"REJECT '):
            rej.append(json.loads(json.loads(line)[7:]))
    return r, rej


# --- merkleization ----------------------------------------------------------
def merkle_replay(args, what):
    def stage(run):
        env = {} if run.quick else {"MAXCOUNT": "big"}
        r = replay(run, "MerkleizerMC", "merkle", what, env=env, args=args, timeout=800 if run.quick else 7200)
        run.exhaustive.append("every (leaf count <= %d, limit of the set, leaf pattern) of Merkleizer.tla" % (13 if run.quick else 36))
        return r
    return stage


def merkle_trace(salts):
    def stage(run):
        binary = run.build("merkle")
        n = 800 if run.quick else 6000
        out = run.path("merkle.ndjson")
        a = [binary, "-seed", str(run.seed), "-n", str(n), "-leaves", "300" if run.quick else "900", "-salts", str(salts), "-out", out]
        try:
            st = run.go(a)
        except Crash as c:
            fatal(run, c, "merkle")
            return
        run.note("recorded", st)
        r, rej = validate(run, "MerkleTrace", out)
        lines = open(out).read().splitlines()
        bad = 0
        for x in rej:
            k = json.loads(lines[x["line"] - 1])
            why = x["why"]
            if why == "fold":  # recovered from hash calls: the hashes decide
                if k["br"][x["br"] - 1]["folds"] == 1:
                    continue
                why = "the branch does not lead to the root"
            if why == "tree":
                p = run.path("roots.ndjson")
                with open(p, "w") as f:
                    f.write(json.dumps({"h": k["hash"], "tree": x["tree"]}) + "\n")
                if run.go([binary, "-roots", p])["root"] == k["root"]:
                    continue
                why = "the root is not that of the tree with this hash function"
            run.violation(why, {"case": short(k, 20000), "branch": x["br"]}, "run: " + " ".join(a))
            bad += 1
            if bad >= 5:
                break
        run.states += r["distinct"]
        run.transitions += r["generated"] - st["cases"]
        run.traces += st["cases"] - len(rej)
        run.part("recorded merkleizations accepted by MerkleTrace.tla", tlc_s=r["secs"], **st)
        run.samples.append({"case": short(lines[len(lines) // 2], 1200)})
    return stage


def merkle_huge(salts):
    def stage(run):
        binary = run.build("merkle")
        n = 90 if run.quick else 900
        out = run.path("huge-merkle.ndjson")
        a = [binary, "-huge", "-seed", str(run.seed), "-n", str(n), "-salts", str(salts), "-out", out]
        try:
            st = run.go(a)
        except Crash as c:
            fatal(run, c, "merkle")
            return
        run.note("recorded", st)
        r, rej = validate(run, "HugeMerkleTrace", out)
        lines = open(out).read().splitlines()
        trees, off = compare_trees(run, binary, r)
        rej += [{"line": t["line"], "br": t["br"], "why": "the branch does not lead to the root" if t["br"] else
                 "the root is not that of the tree"} for t in off]
        for x in sorted(rej, key=lambda x: x["line"])[:5]:
            run.violation(x["why"], {"case": short(lines[x["line"] - 1], 20000), "branch": x["br"]}, "run: " + " ".join(a))
        run.states += r["distinct"]
        run.transitions += r["generated"] - st["cases"]
        run.traces += st["cases"] - len({x["line"] for x in rej})
        run.part("recorded merkleizations of 2^12 to 2^20 leaves accepted by HugeMerkleTrace.tla", tlc_s=r["secs"], trees=len(trees), **st)
    return stage


def compare_trees(run, binary, r):
    """The trees TLC prints, and those whose evaluation is not the recorded root."""
    trees = [json.loads(json.loads(l)[5:]) for l in r["out"].splitlines() if l.startswith('"TREE ')]
    if not trees:
        return trees, []
    p = run.path("trees.ndjson")
    with open(p, "w") as f:
        f.writelines(json.dumps(t) + "\n" for t in trees)
    return trees, [trees[i] for i in run.go([binary, "-trees", p])["bad"]]


# --- contexts -------------------------------------------------------------------
def context_replay(run):
    replay(run, "ContextMC", "ctx", "decoding and encoding contexts", env={} if run.quick else {"DEEP": "1"}, timeout=800 if run.quick else 7200)
    run.exhaustive.append("every operation of the set in every reachable nesting of scopes (up to 3 deep quick, 4 deep thorough) over inputs of up to 9 bytes")


def context_trace(run):
    session_trace(run, "ctx", "ContextTrace", 3000 if run.quick else 30000, "histories of context operations", lambda k, pos: {k_: v for k_, v in k.items() if k_ != "ev"})


def context_huge(run):
    session_trace(run, "ctx", "ContextTrace", 240 if run.quick else 2400, "histories of context operations over inputs around 2^16, 2^24, 2^31 and 2^32 bytes",
                  lambda k, pos: {k_: v for k_, v in k.items() if k_ != "ev"}, ["-huge"])


def session_trace(run, cmd, module, n, what, head, args=()):
    binary = run.build(cmd)
    out = run.path(module + ".ndjson")
    a = [binary, "-seed", str(run.seed), "-n", str(n), "-out", out] + list(args)
    try:
        st = run.go(a)
    except Crash as c:
        fatal(run, c, what)
        return
    run.note("recorded", st)
    r, rej = validate(run, module, out)
    lines = open(out).read().splitlines()
    for x in sorted(rej, key=lambda x: x["sess"])[:5]:
        k = json.loads(lines[x["sess"] - 1])
        ev = k["ev"][x["pos"] - 1]
        run.violation("%s: %s" % (ev["k"] if "k" in ev else ev["op"]["k"], x["why"]),
                      {"start": head(k, x["pos"]), "events": k["ev"][:x["pos"]], "expected": x["expected"]}, "run: " + " ".join(a))
    run.states += r["distinct"]
    run.transitions += r["generated"] - st["sessions"]
    run.traces += st["sessions"] - len(rej)
    run.part("recorded %s accepted by %s.tla" % (what, module), tlc_s=r["secs"], **st)
    run.samples.append({"history": short(lines[len(lines) // 2], 1200)})


# --- values of up to several gigabytes -----------------------------------------
def huge(run):
    run.model("HugeMC", "HugeMC.cfg", env={} if run.quick else {"DEEP": "1"}, timeout=400)
    binary = run.build("huge")
    out, types = run.path("huge.ndjson"), run.path("huge-types.ndjson")
    n = 300 if run.quick else 3000
    a = [binary, "-prop", run.pid, "-seed", str(run.seed), "-n", str(n), "-out", out, "-types", types,
         "-wide", "10" if run.quick else "100"]
    if run.pid in ("C06", "C19"):
        a += ["-giant", "1" if run.quick else "7"]
    try:
        st = run.go(a, timeout=400 if run.quick else 7200)
    except Crash as c:
        fatal(run, c, "huge")
        return
    run.note("recorded", st)
    r, rej = validate(run, "HugeTrace", out, env={"CATALOG": types})
    lines = open(out).read().splitlines()
    trees, off = compare_trees(run, binary, r)
    rej += [{"line": t["line"], "pos": t["pos"], "why": "the root is not that of the SSZ tree"} for t in off]
    if any(x["why"].startswith("harness") for x in rej):
        raise HarnessError(str(rej[:5]))
    for x in sorted(rej, key=lambda x: x["line"])[:5]:
        k = json.loads(lines[x["line"] - 1])
        ev = k["ev"][x["pos"] - 1]
        run.violation("%s (%s, large value)" % (x["why"], ev["k"]), {"case": k["id"], "type": k["t"], "value": short(k["gv"] if "gv" in k else k["el"], 5000), "event": short(ev, 5000)},
                      "run: " + " ".join(a) + " -only %d" % k["id"])
    run.states += r["distinct"]
    run.transitions += r["generated"] - st["cases"]
    run.traces += st["cases"] - len({x["line"] for x in rej})
    run.part("recorded operations on large values (around 2^16, 2^24, 2^31 and 2^32 bytes) accepted by HugeTrace.tla", tlc_s=r["secs"],
             trees=len(trees), **st)
    run.samples.append({"large case": short(lines[len(lines) // 2], 1200)})
    run.note("TLC judged", st["cases"], "large cases in", r["secs"], "s")


def vast(run):
    """Lengths of types of up to 2^45 bytes, sizes of lists of up to 20 gigabytes."""
    run.make_catalog()
    run.model("VastMC", "VastMC.cfg", env={"CATALOG": run.catalog}, timeout=400)
    binary = run.build("huge")
    out = run.path("vast.ndjson")
    a = [binary, "-vast", "1500" if run.quick else "40000", "-seed", str(run.seed), "-out", out]
    try:
        st = run.go(a, mem_gb=40)
    except Crash as c:
        fatal(run, c, "vast types")
        return
    r, rej = validate(run, "VastTrace", out, env={"CATALOG": run.catalog})
    lines = open(out).read().splitlines()
    for x in sorted(rej, key=lambda x: x["line"])[:5]:
        k = json.loads(lines[x["line"] - 1])
        run.violation("%s (%s, vast %s)" % (x["why"], k["k"], "type" if k["k"] == "type" else "list"), short(k, 8000), "run: " + " ".join(a) + " -only %d" % k["id"])
    run.states += r["distinct"]
    run.transitions += r["generated"] - st["cases"]
    run.traces += st["cases"] - len({x["line"] for x in rej})
    run.part("lengths of types of up to 2^45 bytes and sizes of lists of up to 20 GiB accepted by VastTrace.tla", tlc_s=r["secs"], **st)


# --- bitfields ----------------------------------------------------------------
def bits_replay(run):
    replay(run, "BitfieldMC", "bits", "bitfield states and sets", env={} if run.quick else {"DEEP": "1"}, timeout=800 if run.quick else 7200)
    run.exhaustive.append("every bitfield of at most one byte and %s two-byte ones, every set on them" % ("1285" if run.quick else "all"))


def bits_trace(run):
    session_trace(run, "bits", "BitfieldTrace", 4000 if run.quick else 40000, "histories of bitfield operations", lambda k, pos: k["b"])


def bits_huge(run):
    run.model("HugeBitsMC", "HugeBitsMC.cfg", timeout=400)
    session_trace(run, "bits", "HugeBitsTrace", 400 if run.quick else 1200, "histories of operations on bitfields around 2^16, 2^24 and 2^32 bits", lambda k, pos: k["b"], ["-huge"])


# --- concurrency ----------------------------------------------------------------
def concurrent(run):
    run.make_catalog()
    binary = run.build("conc", catalog=True)
    env = {} if run.quick else {"DEEP": "1"}
    m = run.model("Schedules", "Schedules.cfg", env=dict(env, EMIT="1"))
    shared = run.tlc("Schedules", "Schedules.cfg", env={"SHARED": "1"})
    if not any("Invariant %s is violated" % i in shared["out"] for i in ("Isolated", "Prefixes")):
        raise HarnessError("shared scratch memory goes unnoticed by Schedules.tla")
    # the first model's output was overwritten by the second
    m = run.tlc("Schedules", "Schedules.cfg", env=dict(env, EMIT="1"))
    sched = os.path.join(m["dir"], "out.txt")
    parts = [("schedules of Schedules.tla", ["-replay", sched] + ([] if run.quick else ["-every", "3"]), 1000),
             ("free running", ["-free", "150" if run.quick else "2500"], 400)]
    for what, args, limit in parts:
        out = run.path("conc.ndjson")
        a = [binary, "-seed", str(run.seed), "-catalog", run.catalog, "-out", out] + args
        try:
            st = run.go(a, timeout=limit if run.quick else 7200)
        except Crash as c:
            fatal(run, c, what)
            continue
        run.note("recorded", what, st)
        concurrent_trace(run, out, what, st, a)


def concurrent_trace(run, out, what, st, a):
    r, rej = validate(run, "ConcurrentTrace", out, env={"CATALOG": run.catalog})
    if not rej and r["distinct"] != st["sessions"] + st["events"]:
        raise HarnessError("TLC visited %d states for %d sessions with %d events" % (r["distinct"], st["sessions"], st["events"]))
    lines = open(out).read().splitlines()
    for x in sorted(rej, key=lambda x: x["sess"])[:5]:
        s = json.loads(lines[x["sess"] - 1])
        if x["why"].startswith("harness"):
            raise HarnessError("%s: %s" % (x["why"], short(lines[x["sess"] - 1], 2000)))
        run.violation("%s (%s)" % (x["why"], what), {"session": s["id"], "events": s["ev"][:x["pos"]]}, "run: " + " ".join(a))
    run.states += r["distinct"]
    run.transitions += r["generated"] - st["sessions"]
    run.traces += st["sessions"] - len(rej)
    run.part("concurrent sessions accepted by ConcurrentTrace.tla: " + what, tlc_s=r["secs"], **st)
    run.samples.append({"session": short(lines[len(lines) // 2], 1500)})
    run.note("TLC accepted", st["sessions"] - len(rej), "of", st["sessions"], "in", r["secs"], "s")


def concurrent_race(run):
    """The free-running sessions once more, with memory accesses recorded by the race detector: two calls share nothing that one of them writes."""
    binary = run.build("conc", catalog=True, race=True)
    out = run.path("race.ndjson")
    log = run.path("race.log")
    a = [binary, "-seed", str(run.seed + 50), "-catalog", run.catalog, "-out", out, "-free", "60" if run.quick else "800"]
    try:
        st = run.go(a, race=True, timeout=400 if run.quick else 7200, env={"GORACE": "halt_on_error=1 exitcode=66"})
    except Crash as c:
        if c.rc == 66:
            if "github.com/protolambda/zssz" not in c.stderr:
                raise HarnessError("race in the harness: " + c.stderr[-3000:])
            run.violation("data race between calls", {"report": c.stderr[-6000:]}, "run: GORACE='halt_on_error=1 exitcode=66' " + " ".join(a))
            return
        fatal(run, c, "concurrent calls")
        return
    run.note("no race in", st)
    concurrent_trace(run, out, "free running, with the race detector", st, a)
