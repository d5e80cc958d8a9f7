"""From the results of the harness to the records which Trace.tla reads.

Text becomes a sequence of code points, a quantity a decimal with base 10000 limbs, an option a
sequence of length 0 or 1. Nothing is judged here.
"""


def codes(t):
    return [ord(c) for c in t]


def dec(t):
    neg = t.startswith("-")
    body = t.lstrip("+-")
    ip, _, fp = body.partition(".")
    digits = ip + fp
    if not digits.isdigit():
        return {"n": False, "m": [9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9], "s": 0}
    n = int(digits)
    limbs = []
    while n:
        limbs.append(n % 10000)
        n //= 10000
    return {"n": neg, "m": limbs, "s": len(fp)}


def amt(a):
    return {"q": dec(a["q"]), "c": codes(a["c"])}


def opt_amt(o):
    return [amt(a) for a in o]


def opt_text(o):
    return [codes(t) for t in o]


def path(p):
    return [codes(c) for c in p]


def total_entry(a):
    return {"q": dec(a["q"]), "c": codes(a["c"]), "t": codes(a["q"])}


EMPTY = {"xacts": [], "accts": [], "nodes": 0, "hasbal": False, "hasprices": False, "failed": False,
         "pool": [], "poollen": 0, "poolok": True, "prices": [], "nnodes": [], "report": [],
         "areport": [], "allposts": True}


def obs(o):
    r = dict(EMPTY)
    if o.get("failed"):
        r["failed"] = True
        return r
    if "xacts" in o:
        r["xacts"] = [
            {"date": x["date"], "aux": x["aux"], "payee": codes(x["payee"]), "note": opt_text(x["note"]),
             "posts": [{"acct": path(p["acct"]), "amt": opt_amt(p["amt"]), "cost": opt_amt(p["cost"]),
                        "note": opt_text(p["note"]), "xok": p["xok"]} for p in x["posts"]]}
            for x in o["xacts"]]
    r["allposts"] = o.get("allposts", True)
    if "accts" in o:
        r["hasbal"] = all("total" in a for a in o["accts"])
        r["nodes"] = o["nodes"]
        r["accts"] = [
            {"path": path(a["path"]), "name": codes(a["name"]), "full": codes(a["full"]),
             "links": a["links"], "own": [amt(x) for x in a.get("own", [])],
             "total": [total_entry(x) for x in a.get("total", [])]} for a in o["accts"]]
    if "pool" in o:
        r["pool"] = [codes(s) for s in o["pool"]]
        r["poollen"] = o["poollen"]
        r["poolok"] = o["poolok"]
    if "prices" in o:
        r["hasprices"] = True
        r["prices"] = [{"s": codes(p["s"]), "d": codes(p["d"]), "t": p["t"], "q": dec(p["q"])}
                       for p in o["prices"]]
        r["nnodes"] = [codes(s) for s in o["nnodes"]]
    r["report"] = [codes(s) for s in o.get("report", [])]
    r["areport"] = [codes(s) for s in o.get("areport", [])]
    return r


def files(fs):
    out = []
    for f in fs:
        bad = f.get("bytes") is not None
        text = complete_lines(f["bytes"]) if bad else f["text"]
        for name in [f["name"]] + f.get("aliases", []):
            out.append({"name": codes(name), "text": codes(text), "bad": bad})
    return out


def complete_lines(data):
    """The complete lines before the first invalid one."""
    data = bytes(data)
    out = []
    while data:
        i = data.find(b"\n")
        if i < 0:
            break
        try:
            out.append(data[:i + 1].decode("utf-8"))
        except UnicodeDecodeError:
            break
        data = data[i + 1:]
    return "".join(out)


def op_record(op, r, fs, twin):
    k = op["op"]
    v = r.get("v") or {}
    ok = r["res"] == "ok"
    rec = {"op": k, "slot": op.get("slot", 0), "res": r["res"],
           "o": [obs(r["obs"])] if "obs" in r else [], "twin": twin}
    if k == "read":
        fault = bool(op.get("fail"))
        text = op.get("text", "")
        if op.get("via") == "file":
            f = [x for x in fs if op["file"] in [x["name"]] + x.get("aliases", [])]
            if not f:
                # reading a file that does not exist
                text, fault = "", True
            elif f[0].get("bytes") is not None:
                text, fault = complete_lines(f[0]["bytes"]), True
            else:
                text = f[0]["text"]
        elif op.get("bytes") is not None:
            data = bytes(op["bytes"])
            if not fault:
                try:
                    text = data.decode("utf-8")
                except UnicodeDecodeError:
                    fault = True
            if fault:
                text = complete_lines(data)
        elif fault:
            text = complete_lines(text.encode("utf-8"))
        rec.update(text=codes(text), files=files(fs), fault=fault,
                   fname=[codes(op["file"])] if op.get("via") == "file" else [],
                   count=v.get("count", 0))
    elif k in ("run", "runcmd", "runbin"):
        args = op["args"]
        rec.update(op="run", args=[codes(a) for a in args], files=files(fs),
                   lines=[codes(x) for x in v.get("lines", [])])
    elif k == "reg":
        rec.update(name=codes(op["name"]), path=path(v.get("path", [])))
    elif k == "find":
        rec.update(name=codes(op["name"]), found=[path(p) for p in v.get("found", [])])
    elif k == "cfind":
        rec.update(sym=codes(op["sym"]), found=[codes(x) for x in v.get("found", [])],
                   same=v.get("same", False))
    elif k == "price":
        rec.update(s=codes(op["s"]), d=codes(op["d"]),
                   found=[{"t": x["t"], "a": amt(x["a"])} for x in v.get("found", [])])
    elif k == "exch":
        zero = {"q": "0", "c": ""}
        rec.update(a=amt(op["a"]), b=amt(op["b"]), per=op["per"], moment=op["moment"],
                   amount=amt(v.get("amount", zero)), final=amt(v.get("final", zero)),
                   basis=amt(v.get("basis", zero)),
                   price=[{"s": codes(p["s"]), "t": p["t"], "a": amt(p["a"])}
                          for p in v.get("price", [])])
    elif k == "pamt":
        rec.update(text=codes(op["text"]), amt=opt_amt(v.get("amt", [])))
    elif k == "arith":
        rec.update(f=op["f"], a=amt(op["a"]), b=amt(op["b"]), amt=amt(v.get("amt", {"q": "0", "c": ""})))
        for key in ("zero", "null", "same", "eq", "lt", "positive"):
            rec[key] = bool(v.get(key, False))
    elif k == "bal":
        rec.update(terms=[{"f": x["f"], "as": [amt(a) for a in (x["as"] if x["f"] == "bal" else [x])]} for x in op["terms"]],
                   amts=[amt(a) for a in v.get("amts", [])])
    elif k == "addprice":
        rec.update(f=op["f"], text=codes(op.get("text", "")), s=codes(op.get("s", "")), moment=op["moment"],
                   a=amt(op.get("a", {"q": "0", "c": ""})))
    elif k == "qconv":
        rec.update(n=dec(str(op["n"])), text=codes(op["text"]), **{"from": dec(v.get("from", "x"))},
                   back=dec(str(v.get("back", "x"))), amount=dec(v.get("amount", "x")), plain=v.get("plain", False),
                   parsed=[dec(x) for x in v.get("parsed", [])], value=dec(v.get("text", "x")))
    elif k == "same":
        rec.update(other=op["other"], mode=op["mode"], o=[])
    elif k == "obs":
        pass
    else:
        raise ValueError(k)
    return rec


def trace(sc, result, twins):
    """sc: a scenario; result: the harness's line; twins: per operation, same in the other run"""
    fs = sc.get("files", [])
    ops = []
    for i, op in enumerate(sc["ops"]):
        r = result[i] if i < len(result) else {"res": "crash"}
        if op["op"] == "price" and "unsupported" in (r.get("v") or {}):
            continue
        ops.append(op_record(op, r, fs, twins[i] if twins else True))
        if r["res"] in ("crash", "hang"):
            break
    return {"id": sc["id"], "ops": ops}
