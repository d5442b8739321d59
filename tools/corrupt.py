#!/usr/bin/env python3
"""corrupt.py PROPERTY [N]: what the judge makes of lies.

Takes the trace of the property's last quick run, alters one recorded fact in each of N sessions (a digit, a flag, a
count, a missing byte) and asks TLC for its verdict. A demonstration that the specification binds what was recorded,
and a way to find facts that are recorded but that nothing judges. Not a check: an alteration may turn one allowed
behaviour into another."""
import collections, copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt, session

INPUT = {"k", "s", "t", "rd", "L", "av", "wr", "how", "id"}


def facts(x, path=()):
    """Paths of all integers and lists in an event."""
    if isinstance(x, dict):
        for k, v in x.items():
            if not path and k in INPUT:
                continue
            yield from facts(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "cut"
        yield path, "grow"
        for i, v in enumerate(x):
            yield from facts(v, path + (i,))
    elif isinstance(x, bool) or isinstance(x, str):
        return
    elif isinstance(x, int):
        yield path, "number"


def alter(ev, path, kind, rnd):
    x = ev
    for p in path[:-1]:
        x = x[p]
    v = x[path[-1]]
    if kind == "cut":
        v.pop()
    elif kind == "grow":
        v.append(copy.deepcopy(v[-1]) if v else 0)
    elif v in (0, 1) and rnd.random() < 0.8:
        x[path[-1]] = 1 - v
    else:
        x[path[-1]] = v + 1 if v != 255 else 254


def main():
    pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
    src = os.path.join(vt.VERIF, ".work", pid + "-quick")
    lines = open(os.path.join(src, "trace.ndjson")).read().splitlines()
    rnd = random.Random(7)
    run = vt.Run(pid, "corrupt", 1)
    run.catalog = os.path.join(src, "catalog.ndjson")
    out, what = [], []
    only = set(sys.argv[3].split(",")) if len(sys.argv) > 3 else None
    while len(out) < n:
        s = json.loads(rnd.choice(lines))
        evs = [i for i, e in enumerate(s["ev"]) if e["k"] not in ("val", "new") and (not only or e["k"] in only)]
        if not evs:
            continue
        i = rnd.choice(evs)
        by = collections.defaultdict(list)
        for p, k in facts(s["ev"][i]):
            if k == "number" or p[0] != "gv":  # a value of another shape is no value
                by[p[0], k].append(p)
        if not by:
            continue
        key = rnd.choice(sorted(by))
        alter(s["ev"][i], rnd.choice(by[key]), key[1], rnd)
        out.append(json.dumps(s))
        what.append((s["ev"][i]["k"],) + key)
    p = run.path("altered.ndjson")
    open(p, "w").write("\n".join(out) + "\n")
    r, rej = session.validate(run, p, "altered")
    bad = {x["sess"] - 1: x["why"] for x in rej}
    tab = collections.defaultdict(lambda: [0, 0, []])
    for i, w in enumerate(what):
        tab[w][0] += 1
        if i in bad:
            tab[w][1] += 1
        elif len(tab[w][2]) < 3:
            tab[w][2].append(i + 1)
    print("%s: %d alterations, %d rejected" % (pid, n, len(bad)))
    for w in sorted(tab):
        print("  %-10s %-8s %-7s %4d altered %4d rejected   accepted: %s" % (w + tuple(tab[w])))


main()
