"""C16: compilations one after another and side by side in one process."""
import json
from concurrent.futures import ThreadPoolExecutor

import c_checker
import gen
import vp


def damage_text(rng, text):
    """A text outside the language."""
    k = rng.randrange(len(text))
    return text[:k] + rng.choice(["$", "%", "!", "\u00e9"]) + text[k + rng.randint(0, 2):]


def relatives(rng):
    """Texts which declare the same names, but not the same way."""
    base = gen.valid_schema(rng, n_structs=rng.choice([1, 2, 3, 5]), n_enums=rng.choice([0, 1, 2]), codegen=False, cap=40)
    out = [base]
    for _ in range(rng.choice([1, 2, 3, 5])):
        a = json.loads(json.dumps(rng.choice(out)))
        r = rng.random()
        if r < 0.45:
            rng.choice(gen.DEFECTS)(a, rng)
        elif r < 0.6 and len(a) > 2:
            # a declaration which the others have
            a.remove(rng.choice([d for d in a if d["n"] != "export"]))
        elif r < 0.75:
            for d in a:
                if d["n"] == "enum":
                    d["variants"] = gen.enum_decl(rng, d["name"])["variants"]
                elif d["n"] == "struct":
                    rng.shuffle(d["fields"])
        elif r < 0.9:
            names = [d["name"] for d in a if d["n"] == "struct"]
            for d in a:
                if d["n"] == "export" and names:
                    d["name"] = rng.choice(names)
        else:
            a = gen.valid_schema(rng, codegen=False, cap=40)
        out.append(a)
    return out


def make_cases(c):
    rng, cases = c.rng, []
    for _ in range(c.pick(1000, 8000)):
        texts = [{"parsed": True, "ast": a, "text": gen.render(a)} for a in relatives(rng)]
        if rng.random() < 0.4:
            t = damage_text(rng, rng.choice(texts)["text"])
            texts.append({"parsed": False, "ast": [], "text": t})
        n = rng.choice([1, 1, 2, 2, 3, 4, 8])
        length = rng.choice([2, 4, 8]) if n > 1 else rng.choice([3, 6, 12])
        plan = [[rng.randrange(len(texts)) for _ in range(length)] for _ in range(n)]
        cases.append({"texts": texts, "plan": plan})
    # large ones, which take long enough to overlap
    for ast in gen.big_schemas(rng, not c.quick)[: c.pick(6, 20)]:
        texts = [{"parsed": True, "ast": a, "text": gen.render(a)} for a in [ast] + relatives(rng)]
        cases.append({"texts": texts, "plan": [[k % len(texts) for k in range(h, h + 4)] for h in range(4)]})
    # small ones, over and over in one process
    for n in c.pick([1, 1, 2], [1, 1, 1, 2, 4, 8]):
        texts = [{"parsed": True, "ast": a, "text": gen.render(a)} for a in
                 [gen.valid_schema(rng, n_structs=1, n_enums=1, max_fields=2, codegen=False)]]
        if len(cases) % 2 == 0:
            a = json.loads(json.dumps(texts[0]["ast"]))
            gen.DEFECTS[rng.randrange(len(gen.DEFECTS))](a, rng)
            texts += [{"parsed": True, "ast": a, "text": gen.render(a)}, {"parsed": False, "ast": [], "text": damage_text(rng, texts[0]["text"])}]
        plan = [[k for k in range(len(texts))] for _ in range(n)]
        cases.append({"texts": texts, "plan": plan, "rounds": c.pick(70000, 400000) // (n * len(texts))})
    return cases


def outcome(o):
    return dict(c_checker.strip(o), sum=o.get("sum", ""))


def session(c):
    binary = vp.build_harness("pkh")
    with ThreadPoolExecutor(2) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["quick"], ["quick", "deep", "live"]):
                jobs.append(ex.submit(c.mc, "MCSession", "MCSession_%s.cfg" % f, c.pick(2, 4)))
            for f in ("types", "path", "names"):
                jobs.append(ex.submit(c.mc, "MCSession", "MCSession_%s.cfg" % f, 1, expect_violation="Independent"))
            cases = make_cases(c)
        else:
            cases = c.only
        # every text in a process of its own
        texts = sorted({x["text"] for case in cases for x in case["texts"]})
        with ThreadPoolExecutor(vp.CORES) as each:
            alone = dict(zip(texts, each.map(lambda t: first(vp.run_harness(
                binary, [{"id": 0, "texts": [t], "plan": [[0]]}], shards=1)[0]), texts)))
        reqs = [{"id": i, "texts": [x["text"] for x in case["texts"]], "plan": case["plan"], "rounds": case.get("rounds", 1)}
                for i, case in enumerate(cases)]
        # the long ones have a process of their own
        long = [r for r in reqs if r["rounds"] > 1]
        with ThreadPoolExecutor(2) as ex2:
            apart = ex2.submit(vp.run_harness, binary, long, 900, len(long) or 1)
            got = {r["id"]: r for r in vp.run_harness(binary, [r for r in reqs if r["rounds"] == 1], shards=3)}
            got.update((r["id"], r) for r in apart.result())
        got = [got[i] for i in range(len(cases))]
        recs = []
        for case, r in zip(cases, got):
            recs.append({"texts": [{"parsed": x["parsed"], "ast": x["ast"], "alone": alone[x["text"]]} for x in case["texts"]],
                         "events": events(r)})
        c.validate("TraceSession", cases, recs)
        for j in jobs:
            j.result()
    c.notes["compilations"] = sum(1 for r in recs for e in r["events"] if e["e"] == "end")
    c.notes["compilations_in_long_sessions"] = sum(r["rounds"] * sum(map(len, r["plan"])) for r in long)
    c.notes["texts_compiled_alone"] = len(texts)
    c.notes["overlapping_compilations"] = sum(overlaps(r["events"]) for r in recs)
    c.notes["alone"] = {k: sum(1 for a in alone.values() if a["r"] == k) for k in ("ok", "err")}
    for case, r in list(zip(cases, recs))[:: max(1, len(cases) // 3)]:
        c.sample({"texts": [x["text"][:150] for x in case["texts"]], "plan": case["plan"], "events": r["events"][:8]})
    c.assumptions += ["which threads overlap is up to the scheduler; the number of overlaps is recorded"]


def first(r):
    ends = [e for e in r.get("events", []) if e["e"] == "end"]
    return outcome(ends[0]) if ends else outcome(r["outcomes"][0])


def events(r):
    if "events" not in r:
        return [{"e": "start", "th": 0, "i": 1}, {"e": "end", "th": 0, "i": 1, "out": outcome(r["outcomes"][0])}]
    out = []
    for e in r["events"]:
        x = {"e": e["e"], "th": e["th"], "i": e["i"] + 1}
        if e["e"] == "end":
            x["out"] = outcome(e)
        out.append(x)
    return out


def overlaps(evs):
    busy = n = 0
    for e in evs:
        busy += 1 if e["e"] == "start" else -1
        n += e["e"] == "start" and busy > 1
    return n
