"""The bounded model: TLC checks the properties on it and prints its behaviours, which become scenarios."""
import itertools
import json
import os
import random
import re

import conv
import engine
import gen
import pools


def check_model(prop, mod, work, n, timeout=900, args=()):
    """-> (behaviours, generated, distinct)"""
    path = os.path.join(work, f"pool{n}.json")
    d = dict(mod)
    for k in ("lines", "quantities", "symbols"):
        d[k] = [conv.codes(x) for x in mod[k]]
    d["files"] = [{"name": conv.codes(f["name"]), "text": conv.codes(f["text"]), "bad": f["bad"]} for f in mod["files"]]
    with open(path, "w") as f:
        f.write(json.dumps(d) + "\n")
    code, out, stats = engine.tlc("MC.tla", "MC.cfg", {"PROP": prop, "POOL": path}, work, args=args, timeout=timeout)
    if code != 0 or "No error has been found" not in out:
        raise engine.Broken(f"the specification does not have {prop}:\n" + out[-4000:])
    seen, behaviours = set(), []
    for m in re.finditer(r'<<\s*"B",\s*<<([\d,\s]*)>>\s*>>', out):
        h = tuple(int(x) for x in m.group(1).split(","))
        if h not in seen:
            seen.add(h)
            behaviours.append(h)
    behaviours.sort()
    return behaviours, stats[0], stats[1]


def sources(mod, hist):
    """the texts of the reads of a behaviour"""
    out, cur = [], []
    for i in hist:
        if i == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(mod["lines"][i - 1])
    return out


def symbols(mod):
    found = set(gen.SYMS)
    for l in mod["lines"] + [x for f in mod["files"] for x in f["text"].split("\n")]:
        found |= set(re.findall(r"[^\W\d]+|[$€]", l))
    return sorted(found)


SYM_IN_POOL = {"C15": ["A", "B", "C", "D"], "C26": ["AB", "EUR", "XY"]}


def strip_lots(line):
    return re.sub(r"\s*(\{[^}]*\}|\[[^\]]*\])", "", line)


def vary(rng, lines):
    """other layouts of the same lines"""
    out = []
    inside = False
    crlf = rng.random() < 0.3
    for l in lines:
        if not inside or not l.strip():
            while rng.random() < 0.25:
                if not inside:
                    out.append(rng.choice(["; c", "# c", "", "   ", "* c", "| c"]))
                else:
                    break
        if l[:1].isdigit():
            inside = True
        elif not l.strip():
            inside = False
        if l.startswith(" ") and l.strip():
            body = l.strip()
            l = " " * rng.choice([1, 2, 4, 9]) + (body.replace("  ", " " * rng.choice([2, 3, 8]), 1) if body[0] != ";" else body)
        if rng.random() < 0.3:
            l += rng.choice([" ", "   "])
        out.append(l)
    return ("\r\n" if crlf else "\n").join(out) + rng.choice(["", "\n", "\r\n" if crlf else "\n"])


def scenario(prop, mod, hist, idx, tag, seed):
    rng = random.Random(f"{seed}/{prop}/{tag}/{idx}")
    srcs = sources(mod, hist)
    texts = ["\n".join(s) + ("\n" if (idx + k) % 3 else "") for k, s in enumerate(srcs)]
    ops = []
    files = [{"name": f["name"], "text": f["text"]} if not f["bad"] else
             {"name": f["name"], "text": "", "bytes": list(f["text"].encode() + b"\xff\n")} for f in mod["files"]]
    if prop in ("C23", "C07", "C08") and idx % 8 == 0:
        for k, t in enumerate(texts):
            name = f"mc_{tag}_{idx}_{k}.ledger"
            files.append({"name": name, "text": t})
            ops.append(gen.read(0, "", via="file", file=name))
        args = [a for f in files for a in ("-f", f["name"])]
        for verb in {"C07": ("b", "balance"), "C08": ("accounts",)}.get(prop, ("bal", "accounts")):
            a = list(args)
            a.insert(2 * rng.randint(0, len(args) // 2), verb)
            ops.append({"op": "run", "slot": 0, "args": a})
    else:
        for t in texts:
            ops.append(gen.via(rng, t))
    if prop == "C15":
        for a, b in itertools.permutations(SYM_IN_POOL[prop], 2):
            ops.append({"op": "price", "slot": 0, "s": a, "d": b, "moment": [2024, 1, 1, 0, 0, 0]})
    elif prop == "C18":
        for k, s in enumerate(srcs):
            ops.append(gen.read(1, vary(rng, s)))
        ops.append({"op": "same", "slot": 0, "other": 1, "mode": "all"})
    elif prop == "C19":
        ops.append(gen.read(1, "\n\n".join("\n".join(s) for s in srcs) + "\n", via="portions",
                            sizes=[rng.choice([1, 2, 5, 30])]))
        ops.append({"op": "same", "slot": 0, "other": 1, "mode": "all"})
    elif prop == "C22":
        for name in rng.sample(["A", "A:B", "A:B:C", "B", "B:A", "a", "A:C", "B:A:C", "C", "A:B:C:D", "AA", "b"], 4):
            ops.append({"op": rng.choice(["find", "find", "reg"]), "slot": 0, "name": name, "obs": True})
    elif prop == "C25":
        for k, t in enumerate(texts):
            ops.append(gen.read(1, t))
        ops.append({"op": "same", "slot": 0, "other": 1, "mode": "all"})
        ops.append({"op": "obs", "slot": 0, "obs": True})
    elif prop == "C26":
        for _ in range(3):
            a, b = rng.choice(SYM_IN_POOL[prop]), rng.choice(SYM_IN_POOL[prop])
            ops.append({"op": "exch", "slot": 0, "per": rng.random() < 0.5, "obs": True,
                        "a": {"q": rng.choice(["2", "-3", "0.50", "0"]), "c": a}, "b": {"q": rng.choice(["7", "1.25", "0"]), "c": b},
                        "moment": [2023, 1, 1, 0, 0, 0]})
    elif prop == "C27":
        for k, s in enumerate(srcs):
            ops.append(gen.read(1, "\n".join(strip_lots(l) for l in s) + ("\n" if (idx + k) % 3 else "")))
        ops.append({"op": "same", "slot": 0, "other": 1, "mode": "lots"})
    return {"id": f"{prop}-mc{tag}-{idx}", "groups": gen.GROUPS[prop], "files": files, "ops": ops, "syms": symbols(mod)}


def tables(prop, mod):
    """the quantities and symbols of the model in all combinations"""
    scs = []
    qs, ss = mod["quantities"], mod["symbols"]
    if prop == "C24":
        for a in qs:
            ops = []
            for b in qs:
                for f in gen.Scenarios.ARITH:
                    for ca, cb in ((("EUR", "EUR"), ("EUR", "$"), ("", "EUR"), ("EUR", ""), ("", ""))
                                   if f in ("add", "mul", "div", "sub_assign", "add_assign") else (("EUR", "EUR"),)):
                        ops.append({"op": "arith", "slot": 0, "f": f, "a": {"q": a, "c": ca}, "b": {"q": b, "c": cb}})
            for k in range(0, len(ops), 40):
                scs.append(ops[k:k + 40])
    if prop == "C29":
        terms = [{"q": q, "c": s} for q in qs for s in ss + [""]]
        for a in terms:
            ops = []
            for b in terms:
                for f, g in (("add", "sub_assign"), ("sub_assign", "add_assign"), ("bal", "bal"), ("add_assign", "add")):
                    ops.append({"op": "bal", "slot": 0, "terms": [
                        {"f": f, "as": [a]} if f == "bal" else dict(a, f=f), {"f": g, "as": [b, a]} if g == "bal" else dict(b, f=g)]})
            for k in range(0, len(ops), 40):
                scs.append(ops[k:k + 40])
    if prop == "C28":
        for q in qs + ["1.", ".5", "+1", "1,5", "1.2.3", "--1", ""]:
            for s in ss:
                ops = []
                for t in (q + s, q + " " + s, s + q, s + " " + q):
                    ops.append({"op": "pamt", "slot": 0, "text": t})
                    ops.append(gen.read(0, f"2023-01-01 x\n    A  {t}\n    B\n"))
                    if not q.startswith("-"):
                        ops.append(gen.read(0, f"2023-01-01 x\n    A  3 QQ @@ {t}\n    B\n"))
                        z = "Z" + "abcdefghijklmnopqrstuvwxyz"[len(ops)]
                        ops.append(gen.read(0, f"2023-01-01 x\n    A  3 {z} {{{t}}}\n    B\n"))
                        ops.append({"op": "exch", "slot": 0, "per": True, "a": {"q": "1", "c": z}, "b": {"q": "5", "c": "QQ"},
                                    "moment": [2023, 1, 1, 0, 0, 0]})
                scs.append(ops)
    files = []
    if prop == "C20":
        ok = "2023-01-01 x\n    A  1 EUR\n    B\n"
        files = [{"name": "c20_table.ledger", "text": ok}]
        slots = iter(range(10 ** 6))
        lines = gen.DIRECTIVES + ["P 2023-01-01 EUR 5 USD", "include c20_table.ledger", "include c20_table.ledger x", "2023-01-01 y",
                                  "; c", "# c", "* c", "| c", "1", "2023-01-01", "A", "P2023-01-01 EUR 5 USD", "includec20_table.ledger"]
        for l in lines:
            scs.append([gen.read(next(slots), t) for t in (
                l, l + "\n" + ok, ok + "\n" + l, ok + "\n" + l + "\n\n" + ok, ok + l + "\n", " " + l, "  " + l + "\n" + ok,
                "\t" + l + "\n", ok + "\n " + l + "\n" + ok, l + " \r\n")])
        for t in gen.POSTINGS:
            h = "2023-01-01 x\n"
            scs.append([gen.read(next(slots), x) for x in (
                h + f"    A  {t}\n    B\n", h + f"    B\n    A  {t}", h + f"    A  {t}\n    B\n\n" + ok, ok + "\n" + h + f"    A  {t}\n    A  {t}\n    B\n",
                h + f"    A  {t}\n    A  -5 EUR\n")])
    return [{"id": f"{prop}-table-{i}", "groups": gen.GROUPS[prop], "files": files, "ops": ops, "syms": ["EUR", "$", "€", "e", "QQ"]}
            for i, ops in enumerate(scs)]
