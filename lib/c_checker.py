"""C04, C05, C18: verdicts, diagnoses and results of the type checker."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

import gen
import vp


def family(c, name, stride, phase):
    """Schemas of a bounded family, written out by TLC from the specification."""
    out = os.path.join(c.work, "family-%s.ndjson" % name)
    rc, txt, _, _ = vp.tlc("GenSchemas", "GenSchemas.cfg", c.work,
                           env={"FAMILY": name, "STRIDE": str(stride), "PHASE": str(phase), "OUT": out})
    if rc != 0 or not os.path.exists(out):
        raise vp.ToolError("GenSchemas failed for %s:\n%s" % (name, txt[-3000:]))
    with open(out) as fh:
        return [json.loads(l)["ast"] for l in fh]


def strip(o):
    """What the specification sees of one outcome."""
    return {"r": o["r"], "kind": o.get("kind", ""),
            "lines": [l for l in o.get("msg", "").split("\n") if l] if o["r"] != "ok" else []}


def observe(c, binary, cases):
    reqs = [{"id": i, "text": x["text"], "reps": x["reps"]} for i, x in enumerate(cases)]
    recs = []
    for x, r in zip(cases, vp.run_harness(binary, reqs)):
        outs = []
        for o in r["outcomes"]:
            s = strip(o)
            if s not in outs:
                outs.append(s)
        recs.append({"ast": x["ast"], "outs": outs})
    return recs


def verdict(c):
    binary = vp.build_harness("pkh")
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["graphs3", "mixed"], ["graphs3", "graphs3u", "graphs4", "local", "mixed", "live"]):
                jobs.append(ex.submit(c.mc, "MCChecker", "MCChecker_%s.cfg" % f, c.pick(2, 4)))
            cases = make_cases(c)
        else:
            cases = c.only
        recs = observe(c, binary, cases)
        c.validate("TraceCheck", cases, recs)
        for j in jobs:
            j.result()
    c.notes["schemas_compiled"] = len(cases)
    c.notes["compilations"] = sum(x["reps"] for x in cases)
    c.notes["outcome_kinds"] = {k: sum(1 for r in recs if any(o["r"] == k for o in r["outs"]))
                                for k in ("ok", "err", "panic", "abort", "hang")}
    c.notes["several_errors_seen"] = sum(1 for r in recs if len(r["outs"]) > 1)
    for x, r in list(zip(cases, recs))[:: max(1, len(cases) // 4)]:
        c.sample({"text": x["text"][:500], "outcomes": r["outs"]})
    c.assumptions += ["schemas are rendered one declaration per line; how text is parsed is the subject of C07",
                      "error wording is compared line by line with the wording in Schema.tla"]


def make_cases(c):
    rng, cases = c.rng, []

    def add(ast, reps):
        cases.append({"ast": ast, "text": gen.render(ast), "reps": reps})

    for name, stride in c.pick([("graphs3", 2), ("local", 12), ("mixed", 1)],
                               [("graphs3", 1), ("graphs3u", 2), ("graphs4", 4), ("local", 1), ("mixed", 1)]):
        for ast in family(c, name, stride, rng.randrange(stride)):
            add(ast, 6)
    for _ in range(c.pick(15000, 60000)):
        add(gen.checked_schema(rng), 6)
    # one defect at a time, in every kind of surrounding
    for d in gen.DEFECTS:
        for _ in range(c.pick(60, 600)):
            ast = gen.valid_schema(rng, codegen=False)
            d(ast, rng)
            add(ast, 12)
    for ast in gen.big_schemas(rng, not c.quick):
        add(ast, 3)
    for ast in gen.sized_schemas(rng):
        add(ast, 3)
        for _ in range(2):
            a = json.loads(json.dumps(ast))
            rng.choice(gen.DEFECTS)(a, rng)
            add(a, 6)
    return cases


# ---------------------------------------------------------------- C18


def resolve_cases(c):
    rng, cases = c.rng, []

    def add(ast, reps=4):
        cases.append({"ast": ast, "text": gen.render(ast), "reps": reps})

    for name, stride in c.pick([("graphs3", 4), ("mixed", 2)], [("graphs3", 1), ("graphs3u", 2), ("graphs4", 8), ("mixed", 1)]):
        for ast in family(c, name, stride, rng.randrange(stride)):
            add(ast)
    for _ in range(c.pick(4000, 30000)):
        a = gen.valid_schema(rng, n_structs=rng.choice([None, 2, 4, 8]), max_fields=rng.choice([3, 5, 8]), codegen=False, cap=60)
        if rng.random() < 0.5:
            gen.add_unused(a, rng, rng.randint(1, 5))
        if rng.random() < 0.5:
            rng.shuffle(a)
        add(a)
    # enums of every size
    for n in range(1, 33):
        e = gen.E("En", ["V%d" % i for i in range(n)])
        add([e, gen.S("T", [gen.F("e", "En", rng.random() < 0.3, False)]), gen.X("T")])
    for ast in gen.big_schemas(rng, not c.quick):
        add(ast, 2)
    for ast in gen.sized_schemas(rng):
        add(ast, 3)
    return cases


def resolved(c):
    binary = vp.build_harness("pkresolve")
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["graphs3", "mixed"], ["graphs3", "graphs3u", "graphs4", "mixed", "live"]):
                jobs.append(ex.submit(c.mc, "MCChecker", "MCChecker_%s.cfg" % f, c.pick(2, 4)))
            cases = resolve_cases(c)
        else:
            cases = c.only
        recs = []
        for x, r in zip(cases, vp.run_harness(binary, [{"id": i, "text": x["text"], "reps": x["reps"]} for i, x in enumerate(cases)])):
            outs = []
            for o in r.get("outs") or r["outcomes"]:
                if o["r"] == "ok":
                    o = dict(o, types=sorted(o["types"], key=lambda t: t["name"]))
                else:
                    o = {"r": o["r"]}
                if o not in outs:
                    outs.append(o)
            recs.append({"ast": x["ast"], "outs": outs})
        c.validate("TraceResolve", cases, recs)
        for j in jobs:
            j.result()
    c.notes["schemas_compiled"] = len(cases)
    c.notes["resolutions"] = sum(x["reps"] for x in cases)
    c.notes["resolved"] = sum(1 for r in recs for o in r["outs"] if o["r"] == "ok")
    c.notes["types_judged"] = sum(len(o["nodes"]) for r in recs for o in r["outs"] if o["r"] == "ok")
    for x, r in list(zip(cases, recs))[:: max(1, len(cases) // 3)]:
        c.sample({"text": x["text"][:300], "record": json.dumps(r["outs"])[:600]})
