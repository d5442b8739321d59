"""Trace validation of recorded API sessions (spec/SessionTrace.tla)."""
import json, os, re
from vt import HarnessError, Crash, short

# per property: sessions in quick and thorough, and a cap on the bytes of the trace
SIZE = {
    "C01": (3000, 30000), "C02": (3000, 30000), "C03": (4000, 40000), "C04": (6000, 60000),
    "C05": (2500, 25000), "C06": (2500, 20000), "C07": (4000, 30000), "C09": (4000, 30000),
    "C10": (3000, 20000), "C11": (2500, 20000), "C12": (1500, 10000), "C14": (4500, 20000),
    "C16": (6000, 40000), "C17": (1500, 12000), "C18": (1500, 12000), "C19": (2500, 16000), "C20": (1500, 12000),
    "C21": (3000, 24000),
}


def intent(path):
    try:
        d = open(path, "rb").read()
        n = int.from_bytes(d[:8], "little")
        return json.loads(d[8:8 + n])
    except Exception:
        return None


def crashed(run, e, args, only, intent_name):
    """The harness died. Reproduce it with the session alone."""
    if "harnessError" in e.stderr or only is None:
        raise HarnessError("harness: " + e.stderr[-3000:])
    it = intent(run.path(intent_name))
    try:
        run.go(args + ["-only", str(only)])
    except Crash as e2:
        why = "the process hangs" if e2.rc == 7 else "the process dies: " + (e2.stderr.strip().splitlines() or ["?"])[0][:200]
        run.violation(why, {"event": it, "stderr": e2.stderr[-3000:]}, "run: " + " ".join(args + ["-only", str(only)]))
        return
    one = args[args.index("-out") + 1]
    rej = validate(run, one, "alone")[1]
    if rej:
        judge(run, rej, open(one).read().splitlines(), args, args[0])
        if run.violations:
            return
    raise HarnessError("the harness died, but not again: " + e.stderr[:1500])


def kinds(path):
    """What a trace contains."""
    k, types, panics = {}, set(), 0
    with open(path) as f:
        for line in f:
            for ev in json.loads(line)["ev"]:
                n = ev["k"]
                if "ok" in ev:
                    n += "-ok" if ev["ok"] else "-err"
                if ev.get("panic"):
                    n += "-panic"
                k[n] = k.get(n, 0) + 1
                if "t" in ev:
                    types.add(ev["t"])
    return k, len(types)


def validate(run, trace, label, prop=None, heap="10g"):
    """TLC over a recorded trace: the list of rejections."""
    r = run.tlc("SessionTrace", "SessionTrace.cfg", heap=heap, timeout=820 if run.quick else 6 * 3600,
                env={"PROP": prop or run.pid, "TRACE": trace, "CATALOG": run.catalog}, extra=["-deadlock"])
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise HarnessError("TLC on the trace:\n" + r["out"][-3000:])
    rej = []
    for line in r["out"].splitlines():
        if line.startswith('"REJECT '):
            rej.append(json.loads(json.loads(line)[7:]))
    return r, rej


def trace_stage(run, n=None, seed_off=0, bytes_cap=None):
    run.make_catalog()
    binary = run.build("codec", catalog=True)
    n = n or SIZE[run.pid][0 if run.quick else 1]
    out = run.path("trace.ndjson")
    args = [binary, "-prop", run.pid, "-seed", str(run.seed + seed_off), "-n", str(n), "-catalog", run.catalog, "-out", out,
            "-intent", run.path("intent"), "-bytes", str(bytes_cap or (24 << 20 if run.quick else 200 << 20))]
    sessions(run, args, out, "recorded sessions", "intent")


def sessions(run, args, out, what, intent_name):
    try:
        st = run.go(args)
    except Crash as e:
        it = intent(run.path(intent_name))
        crashed(run, e, args, it and it.get("session"), intent_name)
        return
    run.note(what, st)
    r, rej = validate(run, out, "trace")
    if not rej and r["distinct"] != st["sessions"] + st["events"]:
        raise HarnessError("TLC visited %d states for %d sessions with %d events" % (r["distinct"], st["sessions"], st["events"]))
    lines = open(out).read().splitlines()
    if rej:
        rej.sort(key=lambda x: x["sess"])
        judge(run, rej, lines, args, args[0])
    k, nt = kinds(out)
    run.states += r["distinct"]
    run.transitions += r["generated"] - st["sessions"]
    run.traces += st["sessions"] - len(rej)
    run.part(what + " accepted by Session.tla", sessions=st["sessions"], events=st["events"], types=nt, kinds=k, tlc_s=r["secs"])
    for i in (len(lines) // 3, 2 * len(lines) // 3):
        if i < len(lines):
            run.samples.append({"session": short(lines[i], 1500)})
    run.note("TLC accepted", st["sessions"] - len(rej), "of", st["sessions"], "sessions in", r["secs"], "s")


def small_stage(run):
    """The bounded universe of SmallMC.tla: model checked, its plans executed, what happened judged by SessionTrace.tla."""
    run.make_catalog()
    binary = run.build("codec", catalog=True)
    env = {"CATALOG": run.catalog, "PROP": run.pid, "EMIT": "1"}
    if not run.quick:
        env["DEEP"] = "1"
    m = run.model("SmallMC", "SmallMC.cfg", env=env, timeout=400 if run.quick else 7200, heap="10g")
    out = run.path("small.ndjson")
    args = [binary, "-prop", run.pid, "-plans", os.path.join(m["dir"], "out.txt"), "-catalog", run.catalog, "-out", out, "-intent", run.path("intent-small")]
    sessions(run, args, out, "plans of SmallMC.tla", "intent-small")
    run.exhaustive.append("SmallMC.tla: every value of the bounded universe, every wire string of the given tokens and every corruption, for the types of class mc")


def judge(run, rej, lines, args, binary):
    seen = 0
    for x in rej:
        s = json.loads(lines[x["sess"] - 1])
        ev = s["ev"][x["pos"] - 1]
        if x["why"].startswith("harness"):
            raise HarnessError("%s: session %s" % (x["why"], short(lines[x["sess"] - 1], 2000)))
        why = x["why"]
        if why == "tree":
            # the tree was recovered from the hash calls: the root decides
            p = run.path("roots.ndjson")
            with open(p, "w") as f:
                f.write(json.dumps({"h": x["h"], "tree": x["tree"]}) + "\n")
            want = run.go([binary, "-roots", p])["root"]
            if want == ev["root"]:
                continue
            why = "the root is not that of the SSZ tree"
        if run.pid == "C16":  # measured: once more, alone
            one = run.path("again.ndjson")
            a = list(args)
            a[a.index("-out") + 1] = one
            run.go(a + ["-only", str(s["id"])])
            if not validate(run, one, "again")[1]:
                continue
        run.violation("%s (event %d: %s, type %s)" % (why, x["pos"], ev["k"], ev.get("t", "of slot %s" % ev.get("s"))),
                      {"session": s["id"], "types": [l for l in catalog_lines(run, s)], "events": s["ev"][:x["pos"]]},
                      "run: " + " ".join(args) + " -only %d" % s["id"])
        seen += 1
        if seen >= 5:
            break
    if not seen and len(rej) > 200:
        raise HarnessError("many unrecognised trees")


def catalog_lines(run, s):
    ids = {e["t"] for e in s["ev"] if "t" in e}
    with open(run.catalog) as f:
        return [json.loads(l) for i, l in enumerate(f) if i + 1 in ids]
