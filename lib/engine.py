"""Builds the harness from /repo, replays scenarios in it, and has TLC judge the recordings."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

import conv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The check itself could not run."""


def env(**more):
    e = dict(os.environ)
    e.setdefault("CARGO_NET_OFFLINE", "true")
    e["RUSTUP_TOOLCHAIN"] = "1.85.1"
    e.update(more)
    return e


def cargo(args, cwd, target, flags):
    e = env(CARGO_TARGET_DIR=target, RUSTFLAGS=flags)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return subprocess.run(["cargo", *args, "--offline", "--quiet"], cwd=cwd, env=e,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


BASE_FLAGS = "-W invalid_reference_casting -A warnings"


# parts of the library's interface that the harness can do without, as features of the harness
PARTS = ["exch", "pamt", "arith", "bal", "addprice", "qconv", "cfind", "api"]


class Harness:
    def __init__(self):
        self.hooked = True
        self.lacks = set()
        self.binary = None
        self.exe = None

    def attempt(self, hook, parts):
        target = os.path.join(BUILD, "hooked" if hook else "plain")
        r = cargo(["build", "--locked", "--no-default-features", "--features", ",".join(parts)],
                  os.path.join(VERIF, "harness"), target, BASE_FLAGS + (" --cfg ledger_verif" if hook else ""))
        return target, r

    def build(self, with_bin=False):
        os.makedirs(BUILD, exist_ok=True)
        first = None
        for hook in (True, False):
            target, r = self.attempt(hook, PARTS)
            first = first or r.stdout
            if r.returncode == 0:
                parts = PARTS
                break
            # does the tree lack the hook, or a part of the interface?
            if self.attempt(hook, [])[1].returncode == 0:
                parts = []
                for part in PARTS:
                    if self.attempt(hook, parts + [part])[1].returncode == 0:
                        parts = parts + [part]
                target, r = self.attempt(hook, parts)
                break
        if r.returncode != 0:
            raise Broken("the harness does not build:\n" + first[-3000:] + "\n" + r.stdout[-3000:])
        self.hooked = hook
        self.lacks = set(PARTS) - set(parts)
        if not hook:
            self.lacks.add("price")
            print("note: built without the observation hook", file=sys.stderr)
        if self.lacks:
            print("note: built without " + ", ".join(sorted(self.lacks)), file=sys.stderr)
        self.exe = os.path.join(target, "debug", "ledger-conform")
        if with_bin:
            target = os.path.join(BUILD, "bin")
            r = cargo(["build", "--bin", "ledger-rs-lib"], REPO, target, BASE_FLAGS)
            if r.returncode != 0:
                raise Broken("the binary does not build:\n" + r.stdout[-3000:])
            self.binary = os.path.join(target, "debug", "ledger-rs-lib")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness_env(n):
    e = env(MALLOC_PERTURB_=str((165 + 40 * n) % 255), RUST_BACKTRACE="0")
    return e


def run_shard(exe, scen, out, cwd, first, step, total, n, idle):
    """Generator-style runner: starts the process, restarts it after a crash. Returns {index: result}."""
    results = {}
    pos = first
    while pos < total:
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.Popen([exe, scen, out, str(pos), str(step)], cwd=cwd, env=harness_env(n),
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             preexec_fn=limits)
        last, since, hung = -1, time.time(), False
        while True:
            try:
                p.wait(timeout=0.05)
                break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(out) if os.path.exists(out) else 0
                if size != last:
                    last, since = size, time.time()
                elif time.time() - since > idle:
                    p.kill()
                    p.wait()
                    hung = True
                    break
        if os.path.exists(out):
            with open(out, encoding="utf-8", errors="backslashreplace") as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    try:
                        results[pos] = json.loads(line)["r"]
                    except ValueError:          # texts that are not UTF-8, from memory that was freed
                        results[pos] = [{"res": "crash"}]
                    pos += step
        if p.returncode == 0:
            break
        if pos >= total:
            break           # crashed while cleaning up after the last one
        results[pos] = [{"res": "hang" if hung else "crash"}]
        pos += step
        if len([1 for r in results.values() if r[0]["res"] in ("hang", "crash")]) >= 3:
            break           # enough evidence
    return results


def resolve(sc, work):
    """the scenario with the directory of the files in place of %CWD%"""
    if not any("aliases" in f for f in sc.get("files", [])):
        return sc
    return json.loads(json.dumps(sc).replace("%CWD%", os.path.join(work, "files")))


def adapt(h, sc):
    """the scenario without the operations that the harness could not be built with"""
    if not h.lacks:
        return sc
    ops = [dict(op, via="text") if op.get("via") == "api" and "api" in h.lacks else op
           for op in sc["ops"] if op["op"] not in h.lacks]
    return dict(sc, ops=ops)


def replay(h, scenarios, work, n=0, idle=30):
    """Runs the scenarios in the implementation; a list of results (None: not run)."""
    from concurrent.futures import ThreadPoolExecutor
    scen = os.path.join(work, f"scen{n}.ndjson")
    with open(scen, "w") as f:
        for sc in scenarios:
            f.write(json.dumps({"id": sc["id"], "groups": sc["groups"], "syms": sc.get("syms", []),
                                "ops": sc["ops"]}) + "\n")
    cwd = os.path.join(work, "files")
    os.makedirs(cwd, exist_ok=True)
    for sc in scenarios:
        for f in sc.get("files", []):
            p = os.path.join(cwd, f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            data = bytes(f["bytes"]) if f.get("bytes") is not None else f["text"].encode("utf-8")
            with open(p, "wb") as out:
                out.write(data)
    total = len(scenarios)
    step = max(1, min(CORES, total))
    results = [None] * total
    with ThreadPoolExecutor(step) as ex:
        futs = [ex.submit(run_shard, h.exe, scen, os.path.join(work, f"res{n}_{k}.ndjson"), cwd, k,
                          step, total, n, idle) for k in range(step)]
        for fu in futs:
            for i, r in fu.result().items():
                results[i] = r
    # the binary is run from here
    for i, sc in enumerate(scenarios):
        for k, op in enumerate(sc["ops"]):
            if op["op"] == "runbin" and results[i] and k < len(results[i]):
                results[i][k] = run_binary(h, op["args"], cwd)
    return results


def run_binary(h, args, cwd):
    p = subprocess.run([h.binary, *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       preexec_fn=limits, timeout=60)
    if p.returncode < 0:
        return {"res": "crash"}
    if p.returncode != 0:
        return {"res": "panic"}
    return {"res": "ok", "v": {"lines": output_lines(p.stdout.decode("utf-8", "replace"))}}


def output_lines(text):
    """The report printed by the binary: the last line is the list of the lines."""
    lines = text.split("\n")
    while lines and lines[-1] == "":
        lines.pop()
    if not lines:
        return []
    last = lines[-1]
    if last.startswith("[") and last.endswith("]"):
        out = []
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', last):
            out.append(re.sub(r"\\(u\{([0-9a-f]+)\}|.)", unescape, m.group(1)))
        return out
    return [x for x in lines if not x.startswith(("Hello, Ledger-rs", "You requested"))]


def unescape(m):
    if m.group(2):
        return chr(int(m.group(2), 16))
    return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1))


# ---------------------------------------------------------------------------------------------

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, extra_env, work, args=(), workers=None, timeout=900, xmx="6g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    e = env(**extra_env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{xmx}", f"-Djava.io.tmpdir={work}", "-cp", CP,
           "tlc2.TLC", "-workers", str(workers or CORES), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Broken(f"TLC exceeded {timeout} s on {module}") from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STATS.finditer(p.stdout):
        pass
    stats = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode, p.stdout, stats


# characters of a recording
LARGE = 3000000


def judge(prop, traces, work, n=0, timeout=900):
    """TLC evaluates the specification on the recorded traces. -> (failures, transitions, states)"""
    if not traces:
        return [], 0, 0
    lines = [json.dumps(t) + "\n" for t in traces]
    if any(len(x) > LARGE for x in lines) and any(len(x) <= LARGE for x in lines):
        # the large ones only when the others are fine
        some = [t for t, x in zip(traces, lines) if len(x) <= LARGE]
        rest = [t for t, x in zip(traces, lines) if len(x) > LARGE]
        fails, a, b = judge(prop, some, work, n, timeout)
        if fails:
            return fails, a, b
        fails, c, d = judge(prop, rest, work, n, timeout)
        return fails, a + c, b + d
    path = os.path.join(work, f"traces{n}.ndjson")
    with open(path, "w") as f:
        f.writelines(lines)
    code, out, stats = tlc("Trace.tla", "Trace.cfg", {"PROP": prop, "TRACES": path}, work,
                           timeout=timeout)
    if code != 0 or "No error has been found" not in out:
        raise Broken("TLC failed on the recorded traces:\n" + out[-4000:])
    fails = []
    for m in re.finditer(r'<<\s*"FAIL",\s*"?([\w.-]+)"?,\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        fails.append((m.group(1), int(m.group(2)), re.sub(r"\s+", " ", m.group(3))))
    if '"FAIL"' in out and not fails:
        raise Broken("unreadable verdict:\n" + out[-2000:])
    return fails, stats[0], stats[1]
