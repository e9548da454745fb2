"""C06, C10, C11: the generated module as text and as TypeScript."""
import hashlib
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor

import c_checker
import gen
import known
import ts
import vp


def scope_cases(c, fam, stride):
    """Schemas on which variables named after their path alone collide."""
    out = os.path.join(c.work, "scope-%s.ndjson" % fam)
    rc, txt, _, _ = vp.tlc("GenScope", "GenScope.cfg", c.work,
                           env={"FAMILY": fam, "STRIDE": str(stride), "PHASE": str(c.rng.randrange(stride)), "OUT": out})
    if rc != 0 or not os.path.exists(out):
        raise vp.ToolError("GenScope failed:\n" + txt[-3000:])
    with open(out) as fh:
        asts = [json.loads(l)["ast"] for l in fh]
    for a in asts:
        if c.rng.random() < 0.25:
            lengthen(a, c.rng.choice([16, 33, 70, 130, 260]))
        if c.rng.random() < 0.15:
            pad(a, c.rng.choice([5, 12, 40]), c.rng)
    return asts


def lengthen(ast, n):
    """Longer names of the fields of the exported struct; paths which were
    spelt alike still are."""
    name = next(d["name"] for d in ast if d["n"] == "export")
    for d in ast:
        if d["n"] == "struct" and d["name"] == name:
            for f in d["fields"]:
                f["name"] = "l" * n + f["name"]


def pad(ast, n, rng):
    """Many more fields in the exported struct, in front of the others."""
    name = next(d["name"] for d in ast if d["n"] == "export")
    for d in ast:
        if d["n"] == "struct" and d["name"] == name:
            d["fields"][:0] = [gen.F("pad%d" % k, rng.choice(["string", "uint8"]), arr=k % 2 == 0, opt=k % 2 == 1) for k in range(n)]


def dedup(asts):
    seen, out = set(), []
    for a in asts:
        k = json.dumps(a)
        if k not in seen:
            seen.add(k)
            out.append(a)
    return out


# ---------------------------------------------------------------- C10, C11


def module_schemas(c):
    rng, out = c.rng, []
    for _ in range(c.pick({"C10": 2000, "C11": 900}[c.prop], 5000)):
        a = gen.valid_schema(rng, max_fields=rng.choice([3, 5, 8]), deep=rng.random() < 0.4)
        if rng.random() < 0.6:
            gen.add_unused(a, rng, rng.randint(1, 4))
        out.append(a)
    # use through one kind of reference only
    for arr, opt in ((False, False), (True, False), (False, True)):
        for kind in ("struct", "enum"):
            for depth in (0, 1, 2):
                leaf = gen.S("L", [gen.F("v", "uint8")]) if kind == "struct" else gen.enum_decl(rng, "L")
                a = [leaf, gen.S("Unused", [gen.F("l", "L"), gen.F("m", "Never")]), gen.enum_decl(rng, "Never")]
                ty = "L"
                for k in range(depth):
                    a.append(gen.S("M%d" % k, [gen.F("a", "string"), gen.F("n", ty, arr, opt)]))
                    ty = "M%d" % k
                a += [gen.S("T", [gen.F("n", ty, arr, opt), gen.F("b", "float", True)]), gen.X("T")]
                rng.shuffle(a)
                out.append(a)
    for t in gen.BUILTINS:
        out.append([gen.S("T", [gen.F("a", t), gen.F("b", t, arr=True), gen.F("c", t, opt=True)]), gen.X("T"),
                    gen.S("U", [gen.F("t", "T")]), gen.E("V", ["A"])])
    out.append([gen.S("T", []), gen.X("T")])
    out += gen.sized_schemas(rng)
    if c.prop == "C11":
        for fam, stride in c.pick([("flat", 1), ("nested", 4), ("twice", 12)], [("flat", 1), ("nested", 1), ("twice", 1)]):
            out += scope_cases(c, fam, stride)
    return dedup(out)


def module_records(c, binary, cases):
    outs = ts.compile_all(binary, [x["text"] for x in cases])
    ok = [i for i, o in enumerate(outs) if o["r"] == "ok"]
    want = ["decls"] if c.prop == "C10" else ["scope", "diags"]
    res = ts.run_modules(c, [{"ts": ts.module_text(outs[i]), "ast": cases[i]["ast"], "want": want} for i in ok])
    recs = []
    for i, r in zip(ok, res):
        if c.prop == "C10":
            m = r["decls"]
            m["enums"] = [{"ns": e["ns"], "name": e["name"], "members": [v["name"] for v in e["members"]]} for e in m["enums"]]
            recs.append({"ast": cases[i]["ast"], "m": m})
        else:
            recs.append({"diags": r["diags"], "top": r["scope"]["top"], "fns": r["scope"]["fns"]})
    return [cases[i] for i in ok], recs


def modules(c):
    binary = vp.build_harness("pkh")
    module = "TraceDecls" if c.prop == "C10" else "TraceScope"
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            if c.prop == "C10":
                for f in c.pick(["graphs3", "mixed"], ["graphs3", "graphs3u", "graphs4", "mixed"]):
                    jobs.append(ex.submit(c.mc, "MCChecker", "MCChecker_%s.cfg" % f, c.pick(2, 4)))
            else:
                for f in c.pick(["flat"], ["flat", "nested", "twice"]):
                    jobs.append(ex.submit(c.mc, "MCScope", "MCScope_%s.cfg" % f, c.pick(2, 4)))
                jobs.append(ex.submit(c.mc, "MCScope", "MCScope_naive.cfg", 2, expect_violation="Scoped"))
            cases = [{"ast": a, "text": gen.render(a)} for a in module_schemas(c)]
            if c.prop == "C10":
                for ast in c_checker.family(c, "graphs3u", c.pick(16, 4), 0):
                    cases.append({"ast": ast, "text": gen.render(ast)})
        else:
            cases = c.only
        kept, recs = module_records(c, binary, cases)
        c.validate(module, kept, recs)
        for j in jobs:
            j.result()
    c.notes["schemas_compiled"] = len(cases)
    c.notes["modules_judged"] = len(recs)
    if c.prop == "C11":
        c.notes["scope_events"] = sum(len(f["events"]) for r in recs for f in r["fns"])
    for x, r in list(zip(kept, recs))[:: max(1, len(kept) // 3)]:
        c.sample({"text": x["text"][:400], "record": json.dumps(r)[:600]})
    if c.only is None:
        listed = known.cases(c.prop)
        kept, recs = module_records(c, binary, [case for _, _, case in listed]) if listed else ([], [])
        before = len(c.rejects)
        c.validate(module, kept, recs)
        texts = {case["text"] for case, _ in c.rejects[before:]}
        del c.rejects[before:]
        return known.settle(c, [(name, what, case["text"] in texts) for name, what, case in listed])


# ---------------------------------------------------------------- C06


def rename_apart(ast, rng):
    """The same schema with the declarations in another order and others beside it."""
    a = [json.loads(json.dumps(d)) for d in ast]
    what = rng.choice(["order", "order", "unused", "both", "drop"])
    if what in ("unused", "both"):
        gen.add_unused(a, rng, rng.randint(1, 5))
    if what == "drop":
        used, todo = set(), [d["name"] for d in a if d["n"] == "export"]
        env = {d["name"]: d for d in a if d["n"] != "export"}
        while todo:
            x = todo.pop()
            if x in env and x not in used:
                used.add(x)
                todo += [f["ty"] for f in env[x].get("fields", [])]
        a = [d for d in a if d["n"] == "export" or d["name"] in used]
    if what != "unused":
        rng.shuffle(a)
    return a


def same_groups(c):
    rng, groups = c.rng, []
    for _ in range(c.pick(1200, 6000)):
        a = gen.valid_schema(rng, n_structs=rng.choice([2, 3, 4, 6, 9]), n_enums=rng.choice([0, 1, 2, 4]), codegen=False, cap=40)
        if rng.random() < 0.5:
            gen.add_unused(a, rng, rng.randint(1, 4))
        runs = [a] + [rename_apart(a, rng) for _ in range(c.pick(5, 8))]
        groups.append(runs)
    for _ in range(c.pick(300, 2000)):
        a = gen.checked_schema(rng)
        groups.append([a] + gen.all_orders(a, rng, c.pick(4, 8)))
    for ast in c_checker.family(c, "mixed", c.pick(8, 2), 0):
        groups.append([ast] + gen.all_orders(ast, rng, 4))
    for ast in gen.big_schemas(rng, not c.quick) + gen.sized_schemas(rng):
        groups.append([ast] + [rename_apart(ast, rng) for _ in range(2)])
    return [[{"ast": a, "text": gen.render(a)} for a in g] for g in groups]


def same(c):
    binary = vp.build_harness("pkh")
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["graphs3", "mixed"], ["graphs3", "graphs3u", "graphs4", "mixed"]):
                jobs.append(ex.submit(c.mc, "MCChecker", "MCChecker_%s.cfg" % f, c.pick(2, 4)))
            cases = [{"group": g} for g in same_groups(c)]
        else:
            cases = c.only
        flat = [x for case in cases for x in case["group"]]
        reps = c.pick(4, 10)
        reqs = [{"id": i, "text": x["text"], "reps": reps} for i, x in enumerate(flat)]
        t0 = time.time()
        first = vp.run_harness(binary, reqs)
        # once more in other processes and at another second of the clock
        time.sleep(max(0, 1.2 - (time.time() - t0)))
        second = vp.run_harness(binary, reqs[::-1])[::-1]

        def outcomes(*rs):
            res = []
            for r in rs:
                for o in r["outcomes"]:
                    x = {"r": o["r"], "kind": o.get("kind", ""),
                         "sum": hashlib.sha256(o["body"].encode()).hexdigest()[:24] if o["r"] == "ok" else ""}
                    if x not in res:
                        res.append(x)
            return res

        recs, n = [], 0
        for case in cases:
            runs = []
            for x in case["group"]:
                runs.append({"ast": x["ast"], "outs": outcomes(first[n], second[n])})
                n += 1
            recs.append({"runs": runs})
        c.validate("TraceSame", cases, recs)
        for j in jobs:
            j.result()
    c.notes["compilations"] = 2 * reps * len(flat)
    c.notes["schemas_compiled"] = len(flat)
    c.notes["accepted"] = sum(1 for r in recs for x in r["runs"] if x["outs"][0]["r"] == "ok")
    for case, r in list(zip(cases, recs))[:: max(1, len(cases) // 3)]:
        c.sample({"text": case["group"][0]["text"][:300], "last": case["group"][-1]["text"][:300],
                  "outcomes": [x["outs"] for x in r["runs"]]})
