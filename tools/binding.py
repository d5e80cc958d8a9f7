#!/usr/bin/env python3
"""Shows that the specification is bound to what is recorded: corrupts single fields of recordings of the
real library and counts how many of the corrupted recordings TLC rejects, per kind and property.

binding.py [SEED [SCENARIOS [PROPERTY...]]]
"""
import copy
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import checks  # noqa: E402
import conv  # noqa: E402
import engine  # noqa: E402
import gen  # noqa: E402


def bump(q):
    """the quantity, changed by one in the last place"""
    neg = q.startswith("-")
    digits = q.lstrip("-")
    n = int(digits.replace(".", "")) * (-1 if neg else 1) + 1
    s = len(digits.partition(".")[2])
    t = str(abs(n)).rjust(s + 1, "0")
    return ("-" if n < 0 else "") + (t[:-s] + "." + t[-s:] if s else t)


def pick(rng, xs):
    return rng.choice(xs) if xs else None


def posts(o):
    return [p for x in o.get("xacts", []) for p in x["posts"]]


def on_amount(where):
    def f(rng, r, o):
        a = pick(rng, where(r, o))
        if a is None:
            return False
        a["q"] = bump(a["q"])
        return True
    return f


def on_symbol(where):
    def f(rng, r, o):
        a = pick(rng, where(r, o))
        if a is None:
            return False
        a["c"] = a["c"] + "Z" if a["c"] else "Z"
        return True
    return f


def dropping(where):
    def f(rng, r, o):
        l = pick(rng, [l for l in where(r, o) if l])
        if l is None:
            return False
        del l[rng.randrange(len(l))]
        return True
    return f


def swapping(where):
    def f(rng, r, o):
        l = pick(rng, [l for l in where(r, o) if len(l) > 1])
        if l is None:
            return False
        i, j = rng.sample(range(len(l)), 2)
        if l[i] == l[j]:
            return False
        l[i], l[j] = l[j], l[i]
        return True
    return f


def texting(where):
    def f(rng, r, o):
        h = pick(rng, where(r, o))
        if h is None:
            return False
        d, k = h
        if isinstance(d[k], list):
            if d[k] and isinstance(d[k][0], str):
                d[k][0] += "x"
            else:
                d[k] = ["x"]
        else:
            d[k] += "x"
        return True
    return f


def dating(where):
    def f(rng, r, o):
        l = pick(rng, [l for l in where(r, o) if l])
        if l is None:
            return False
        l[2] = l[2] % 28 + 1
        return True
    return f


def outcome(rng, r, o):
    r["res"] = "panic" if r["res"] == "ok" else "ok"
    return True


def count(rng, r, o):
    if "count" not in (r.get("v") or {}):
        return False
    r["v"]["count"] += 1
    return True


def unlink(rng, r, o):
    p = pick(rng, posts(o))
    if p is None:
        return False
    p["xok"] = False
    return True


KINDS = {
    "result": outcome,
    "count": count,
    "date": dating(lambda r, o: [d for x in o.get("xacts", []) for d in x["date"] + x["aux"]]),
    "payee": texting(lambda r, o: [(x, "payee") for x in o.get("xacts", [])]),
    "note": texting(lambda r, o: [(x, "note") for x in o.get("xacts", []) + posts(o)]),
    "transaction lost": dropping(lambda r, o: [o.get("xacts", [])]),
    "transactions swapped": swapping(lambda r, o: [o.get("xacts", [])]),
    "posting lost": dropping(lambda r, o: [x["posts"] for x in o.get("xacts", [])]),
    "postings swapped": swapping(lambda r, o: [x["posts"] for x in o.get("xacts", [])]),
    "posting's account": texting(lambda r, o: [(p, "acct") for p in posts(o) if p["acct"]]),
    "posting's transaction": unlink,
    "amount": on_amount(lambda r, o: [a for p in posts(o) for a in p["amt"]]),
    "amount's symbol": on_symbol(lambda r, o: [a for p in posts(o) for a in p["amt"]]),
    "amount lost": dropping(lambda r, o: [p["amt"] for p in posts(o)]),
    "cost": on_amount(lambda r, o: [a for p in posts(o) for a in p["cost"]]),
    "cost's symbol": on_symbol(lambda r, o: [a for p in posts(o) for a in p["cost"]]),
    "cost lost": dropping(lambda r, o: [p["cost"] for p in posts(o)]),
    "account lost": dropping(lambda r, o: [o.get("accts", [])]),
    "account's name": texting(lambda r, o: [(a, "name") for a in o.get("accts", [])]),
    "full name": texting(lambda r, o: [(a, "full") for a in o.get("accts", [])]),
    "link lost": dropping(lambda r, o: [a["links"] for a in o.get("accts", [])]),
    "links swapped": swapping(lambda r, o: [a["links"] for a in o.get("accts", [])]),
    "own balance": on_amount(lambda r, o: [x for a in o.get("accts", []) for x in a.get("own", [])]),
    "own balance's entry lost": dropping(lambda r, o: [a.get("own", []) for a in o.get("accts", [])]),
    "total": on_amount(lambda r, o: [x for a in o.get("accts", []) for x in a.get("total", [])]),
    "total's entry lost": dropping(lambda r, o: [a.get("total", []) for a in o.get("accts", [])]),
    "symbol lost": dropping(lambda r, o: [o.get("pool", [])]),
    "price": on_amount(lambda r, o: o.get("prices", [])),
    "price lost": dropping(lambda r, o: [o.get("prices", [])]),
    "price's date": dating(lambda r, o: [p["t"] for p in o.get("prices", [])]),
    "report's line": texting(lambda r, o: [(o, "report")] if o.get("report") else []),
    "report's line lost": dropping(lambda r, o: [o.get("report", [])]),
    "report's order": swapping(lambda r, o: [o.get("report", [])]),
    "accounts report's line lost": dropping(lambda r, o: [o.get("areport", [])]),
    "lookup's result": dropping(lambda r, o: [(r.get("v") or {}).get("found", [])]),
    "price found": on_amount(lambda r, o: [x["a"] for x in (r.get("v") or {}).get("found", []) if isinstance(x, dict)]),
    "command's line lost": dropping(lambda r, o: [(r.get("v") or {}).get("lines", [])]),
    "basis cost": on_amount(lambda r, o: [r["v"]["basis"]] if "basis" in (r.get("v") or {}) else []),
    "final cost": on_amount(lambda r, o: [r["v"]["final"]] if "final" in (r.get("v") or {}) else []),
    "unit price": on_amount(lambda r, o: [p["a"] for p in (r.get("v") or {}).get("price", [])]),
    "sum, product, quotient": on_amount(lambda r, o: [r["v"]["amt"]] if isinstance((r.get("v") or {}).get("amt"), dict) else []),
    "parsed amount": on_amount(lambda r, o: r["v"]["amt"] if isinstance((r.get("v") or {}).get("amt"), list) else []),
    "balance's entry": on_amount(lambda r, o: (r.get("v") or {}).get("amts", [])),
    "balance's entry lost": dropping(lambda r, o: [(r.get("v") or {}).get("amts", [])]),
}


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 150
    props = sys.argv[3:] or list(checks.NAMES)
    best = {}
    h = engine.Harness()
    h.build(with_bin="C23" in props)
    for prop in props:
        work = tempfile.mkdtemp(prefix="binding")
        try:
            g = gen.Scenarios(prop, seed, 0)
            scs = [engine.adapt(h, engine.resolve(g.make(i), work)) for i in range(n)]
            results = engine.replay(h, scs, work, 1)
            traces, kinds = [], {}
            rng = random.Random(f"binding {prop} {seed}")
            for kind, f in KINDS.items():
                for i in range(n):
                    res = copy.deepcopy(results[i])
                    if res is None or len(repr(res)) > 20000:
                        continue
                    steps = list(range(len(res)))
                    rng.shuffle(steps)
                    if any(f(rng, res[k], res[k].get("obs", {})) for k in steps):
                        sc = dict(scs[i], id=f"{len(traces)}")
                        kinds[sc["id"]] = kind
                        traces.append(conv.trace(sc, res, None))
                    if sum(1 for v in kinds.values() if v == kind) >= 10:
                        break
            fails, _, _ = engine.judge(prop, traces, work, 1)
            bad = {x[0] for x in fails}
            row = {}
            for i, kind in kinds.items():
                a = row.setdefault(kind, [0, 0])
                a[1] += 1
                a[0] += i in bad
            for kind, (a, b) in row.items():
                best.setdefault(kind, []).append((a / b, a, b, prop))
        finally:
            shutil.rmtree(work)
    for kind in KINDS:
        row = sorted(best.get(kind, []), key=lambda x: (-x[0], x[3]))
        print(f"{kind:28s}", " ".join(f"{p}:{a}/{b}" for q, a, b, p in row[:5] if a))


main()
