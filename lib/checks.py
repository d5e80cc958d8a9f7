"""One run of a check: behaviours -> implementation -> recorded traces -> TLC."""
import json
import os
import random
import time

import conv
import engine
import gen
import model
import pools

NAMES = sorted(gen.GROUPS)

# random scenarios and replayed behaviours of the model in the quick tier
QUICK = dict({p: 1500 for p in NAMES}, C09=700, C22=700, C23=500, C25=600, C19=900, C18=900, C21=900, C04=1000, C05=1200)
QUICK_MODEL = dict({p: 2500 for p in NAMES}, C23=300)
# the thorough tier goes on until the budget is used up
THOROUGH_SECONDS = int(os.environ.get("VERIF_BUDGET", "600"))
THOROUGH_MODEL = 60000
BATCH = 3000


def twins_of(a, b):
    """per operation: did the other process give the same result?"""
    return [b is not None and i < len(b) and json.dumps(r, sort_keys=True) == json.dumps(b[i], sort_keys=True)
            for i, r in enumerate(a)]


class Run:
    def __init__(self, prop, tier, seed, work, start):
        self.prop, self.tier, self.seed, self.work, self.start = prop, tier, seed, work, start
        self.n = 0
        self.states = self.transitions = self.validated = 0
        self.model_states = self.model_transitions = 0
        self.behaviours = self.replayed = self.random = 0
        self.outcome, self.violations, self.samples = {}, [], []
        self.models = []
        self.h = engine.Harness()

    def process(self, scenarios, keep=False):
        """replays the scenarios in the implementation and has TLC judge the recordings"""
        self.n += 1
        by = {sc["id"]: sc for sc in scenarios}
        scenarios = [engine.adapt(self.h, engine.resolve(sc, self.work)) for sc in scenarios]
        results = engine.replay(self.h, scenarios, self.work, self.n)
        other = engine.replay(self.h, scenarios, self.work, self.n + 100000) if self.prop == "C25" else None
        traces = []
        for i, sc in enumerate(scenarios):
            if results[i] is None:
                continue
            tw = twins_of(results[i], other[i]) if other is not None and other[i] is not None else None
            traces.append(conv.trace(sc, results[i], tw))
            for x in results[i]:
                self.outcome[x["res"]] = self.outcome.get(x["res"], 0) + 1
        fails, trans, states = engine.judge(self.prop, traces, self.work, self.n)
        self.transitions += trans
        self.states += states
        self.validated += len(traces)
        for i, step, labels in fails:
            self.violations.append((by[i], step, labels))
        if scenarios and len(self.samples) < 4:
            sc = scenarios[len(scenarios) // 2]
            self.samples.append({"id": sc["id"], "ops": sc["ops"][:4]})
        for k in ("scen%d.ndjson", "traces%d.ndjson"):
            try:
                os.remove(os.path.join(self.work, k % self.n))
            except OSError:
                pass
        return results

    def batches(self, scenarios):
        for lo in range(0, len(scenarios), BATCH):
            self.process(scenarios[lo:lo + BATCH])
            if self.violations or self.late():
                return

    def late(self):
        return self.tier == "thorough" and time.time() - self.start > THOROUGH_SECONDS

    def bounded(self):
        """the bounded model, and its behaviours in the implementation"""
        quick, deep = pools.MODELS[self.prop]
        mods = quick if self.tier == "quick" else quick + deep
        limit = QUICK_MODEL[self.prop] if self.tier == "quick" else THOROUGH_MODEL
        scs = []
        for k, mod in enumerate(mods):
            behaviours, gen_, dist = model.check_model(self.prop, mod, self.work, k)
            self.model_transitions += gen_
            self.model_states += dist
            self.behaviours += len(behaviours)
            tag = f"{self.tier[0]}{k}"
            chosen = list(enumerate(behaviours))
            part = limit // len(mods)
            if len(chosen) > part:
                chosen = sorted(random.Random(f"{self.seed}/{self.prop}/{tag}").sample(chosen, part))
            self.models.append({"lines": len(mod["lines"]), "postings": mod["posts"], "transactions": mod["xacts"],
                                "reads": mod["reads"], "length": mod["len"], "distinct_states": dist,
                                "behaviours": len(behaviours), "replayed": len(chosen)})
            scs += [model.scenario(self.prop, mod, h, i, tag, self.seed) for i, h in chosen]
            scs += model.tables(self.prop, mod)
        self.replayed = len(scs)
        return scs

    def report(self):
        for sc, step, labels in self.violations[:5]:
            path = save_replay(self.prop, sc, step, labels)
            print(f"VIOLATION property={self.prop} replay={path} step={step} {labels}")
        if len(self.violations) > 5:
            print(f"({len(self.violations)} violations)")
        wall = round(time.time() - self.start, 1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.model_states + self.states,
                           "transitions": self.model_transitions + self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "bounded_model": self.models,
                           "model_states": self.model_states, "trace_states": self.states,
                           "behaviours_of_the_model": self.behaviours, "behaviours_replayed": self.replayed,
                           "random_scenarios": self.random, "outcome_of_operations": self.outcome,
                           "observation_hook": self.h.hooked, "samples": self.samples},
              "assumptions": ["the bounds of the models and of the generator (DESIGN.md)",
                              "texts which the specification leaves open are not judged"],
              "wall_s": wall, "violations": len(self.violations)}
        os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(engine.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print(f"{self.prop}: model {self.model_states} states, {self.replayed} of {self.behaviours} behaviours replayed, "
              f"{self.random} random scenarios, {self.validated} traces, {self.outcome}, {wall} s")
        return 1 if self.violations else 0


def save_replay(prop, sc, step, labels):
    d = os.path.join(engine.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{sc['id']}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "step": step, "failed": labels, "scenario": sc}, f, indent=1, ensure_ascii=False)
    return path


def run(prop, tier, seed, work, start, replay=None):
    r = Run(prop, tier, seed, work, start)
    r.h.build(with_bin=(prop == "C23"))
    if replay:
        results = r.process([json.load(open(replay))["scenario"]])
        print(json.dumps(results, indent=1, ensure_ascii=False))
        print([(step, labels) for _, step, labels in r.violations])
        return 1 if r.violations else 0
    scs = r.bounded()
    g = gen.Scenarios(prop, seed)
    rand = [g.make(i) for i in range(QUICK[prop])]
    r.random = len(rand)
    r.batches(scs + rand)
    i = len(rand)
    while tier == "thorough" and not r.violations and not r.late():
        more = [g.make(k) for k in range(i, i + BATCH)]
        i += BATCH
        r.random += len(more)
        r.process(more)
    return r.report()
