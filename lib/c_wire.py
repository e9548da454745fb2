"""C01, C02, C03, C15, C17: what generated encoders and decoders do."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

import gen
import known
import ts
import values
import vp


def model_cases(c, cfg, stride):
    """Schemas and values of the model, written out by TLC."""
    out = os.path.join(c.work, cfg + ".ndjson")
    rc, txt, _, _ = vp.tlc("GenWire", cfg + ".cfg", c.work,
                           env={"STRIDE": str(stride), "PHASE": str(c.rng.randrange(stride)), "OUT": out})
    if rc != 0 or not os.path.exists(out):
        raise vp.ToolError("GenWire failed:\n" + txt[-3000:])
    with open(out) as fh:
        return [json.loads(l) for l in fh]


def roundtrip(rng, leaves):
    return {"kind": "roundtrip", "leaves": leaves, "buf": rng.random() < 0.3,
            "nil": rng.choice(["undefined", "omit"])}


def damaged(rng, ast, leaves, n):
    """Runs which decode damaged or arbitrary packets. Large 32-bit numbers
    are made small on the way, since a count is not bounded by anything."""
    out = [{"kind": "cuts", "leaves": leaves, "all": 24, "clamp": 300, "nil": "undefined",
            "cuts": [rng.random() for _ in range(8)]}]
    pokes = []
    for _ in range(n):
        pokes.append([[rng.random(), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 127, 128, 129, 192, 255,
                                                rng.randrange(256)])] for _ in range(rng.choice([1, 1, 1, 2, 4]))])
    out.append({"kind": "poke", "leaves": leaves, "clamp": 300, "nil": "undefined", "pokes": pokes})
    for _ in range(max(2, n // 4)):
        k = rng.choice([0, 1, 2, 3, 4, 8, 16, 40, 100])
        pool = rng.choice([[0, 1], [0, 1, 2, 4], list(range(256)), [0, 0, 0, 1, 2, 255]])
        out.append({"kind": "read", "hex": bytes(rng.choice(pool) for _ in range(k)).hex(), "clamp": 40})
    return out


def schema_pool(c, n):
    """Schemas which between them cover every pair of field kinds in every
    kind of nesting, plus random ones."""
    rng, out = c.rng, []
    kinds = [(t, m) for t in gen.BUILTINS + ["E", "S"] for m in ("one", "arr", "opt")]
    # one field of every kind, alone and below one and two levels of nesting
    for outer in ("one", "arr", "opt"):
        for chunk in range(0, len(kinds), 5):
            fs = [gen.F("f%d" % i, t if t != "S" else "I", m == "arr", m == "opt")
                  for i, (t, m) in enumerate(kinds[chunk:chunk + 5])]
            out.append([gen.enum_decl(rng, "E"), gen.S("I", [gen.F("u", "uint16"), gen.F("v", "string", opt=True)]),
                        gen.S("M", fs), gen.S("N", [gen.F("m", "M", outer == "arr", outer == "opt"), gen.F("z", "int8")]),
                        gen.S("T", [gen.F("a", "uint8"), gen.F("n", "N", rng.random() < 0.4, False),
                                    gen.F("k", "M", False, rng.random() < 0.5), gen.F("b", "E")]), gen.X("T")])
    out += gen.sized_schemas(rng)
    for _ in range(n):
        out.append(gen.valid_schema(rng, max_fields=rng.choice([3, 5, 8, 12])))
    return out


def make_cases(c):
    rng, cases = c.rng, []

    def add(ast, run):
        cases.append({"ast": ast, "text": gen.render(ast), "run": run})

    for cfg, stride in c.pick([("GenWire_quick", 2), ("GenWire_pairs", 24)], [("GenWire_quick", 1), ("GenWire_pairs", 2)]):
        for m in model_cases(c, cfg, stride):
            vals = m["vals"] if len(m["vals"]) <= c.pick(6, 30) else rng.sample(m["vals"], c.pick(6, 30))
            for v in vals:
                add(m["ast"], roundtrip(rng, v))
                if c.prop == "C03":
                    add(m["ast"], damaged(rng, m["ast"], v, 1)[0])
    for ast in schema_pool(c, c.pick(300 if c.prop == "C03" else 900, 3000)):
        for style in ("empty", "zero", "full") + ("mixed",) * c.pick(3, 8):
            v = values.leaves(rng, ast, style, long_arrays=style == "full" and rng.random() < 0.2)
            if c.prop != "C03":
                add(ast, roundtrip(rng, v))
            elif style != "empty":
                for run in damaged(rng, ast, v, c.pick(5, 12)):
                    add(ast, run)
    return cases


def sweep_cases(c):
    """Enums of every size in every position."""
    rng, cases = c.rng, []

    def case(ast, runs, enums):
        cases.append({"ast": ast, "text": gen.render(ast), "runs": runs, "enums": enums})

    def names(n, style):
        if style == 0:
            return ["V%d" % i for i in range(n)]
        ns = gen.Names(rng, gen.TRICKY_VARIANTS, avoid=gen.TS_RESERVED + ["NaN", "Infinity"])
        return [ns.new() for _ in range(n)]

    le = lambda v, w: v.to_bytes(w, "little").hex()  # noqa: E731
    for n in list(range(0, 41)) + [63, 64, 65, 255, 256, 257]:
        e = gen.E("En", names(n, rng.randint(0, 1)))
        other = gen.E("Other", names(rng.choice([1, 8, 9, 16, 17, 32]), 0))
        if n < 1 or n > 32:
            case([e, gen.S("T", [gen.F("e", "En")]), gen.X("T")], [], [])
            case([e, gen.S("T", [gen.F("x", "uint8")]), gen.X("T")], [], [])
            continue
        width, size = ("uint8", 1) if n <= 8 else ("uint16", 2) if n <= 16 else ("uint32", 4)
        vals = None
        if size == 4:
            bits = [1 << i for i in range(32)]
            vals = sorted({v for b in bits for v in (b, b - 1, b + 1, b | 1, 2**32 - b) if 0 <= v < 2**32} | {0, 2**32 - 1}
                          | {a | b for a in bits for b in bits} | {rng.randrange(2**32) for _ in range(c.pick(500, 5000))})
        L = lambda s, k=0: {"s": s, "n": k}  # noqa: E731
        inner = gen.S("In", [gen.F("p", "uint8"), gen.F("e", "En")])
        spots = [
            ([gen.F("e", "En")], "", "", [], []),
            ([gen.F("a", "uint8"), gen.F("e", "En"), gen.F("b", "uint16")], "07", "0100", [L("7")], [L("1")]),
            ([gen.F("e", "En", arr=True)], le(1, 4), "", [L("#", 1)], []),
            ([gen.F("e", "En", opt=True)], "01", "", [L("?", 1)], []),
            ([gen.F("i", "In"), gen.F("q", "string")], "05", le(2, 4) + "6868", [L("5")], [L("hh", 2)]),
            ([gen.F("i", "In", arr=True)], le(1, 4) + "05", "", [L("#", 1), L("5")], []),
            ([gen.F("i", "In", opt=True)], "0105", "", [L("?", 1), L("5")], []),
        ]
        for k, (fields, before, after, pre, post) in enumerate(spots):
            if c.quick and size == 2 and k not in (0, 1 + n % 6):
                continue
            ast = [other, inner, gen.S("T", fields + [gen.F("o", "Other")]), e, gen.X("T")]
            ow = 1 if len(other["variants"]) <= 8 else 2 if len(other["variants"]) <= 16 else 4
            sweep = {"kind": "sweep", "enum": "En", "width": width, "before": before, "after": after + le(1, ow),
                     "pre": pre, "post": post + [L(other["variants"][0])]}
            if vals:
                sweep["values"] = vals
            runs = [sweep]
            for v in (e["variants"] if k == 0 else [e["variants"][-1], e["variants"][0]]):
                runs.append(roundtrip(rng, pre + [L(v)] + post + [L(other["variants"][-1])]))
            case(ast, runs, ["En", "Other"])
    return cases


def run_cases(c, binary, cases):
    """-> traces [(case, record)]; records hold the index of their schema."""
    # one module per schema, all its runs at once
    by, order = {}, []
    for k, x in enumerate(cases):
        key = x["text"]
        if key not in by:
            by[key] = {"ast": x["ast"], "text": key, "runs": [], "src": [], "enums": x.get("enums", [])}
            order.append(key)
        for r in x.get("runs") or ([x["run"]] if "run" in x else []):
            by[key]["runs"].append(r)
            by[key]["src"].append(k)
    mods = [by[k] for k in order]
    outs = ts.compile_all(binary, [m["text"] for m in mods])
    ok = [i for i, o in enumerate(outs) if o["r"] == "ok"]
    jobs = [{"ts": ts.module_text(outs[i]), "ast": mods[i]["ast"], "want": ["decls"] if c.prop == "C15" else [],
             "runs": mods[i]["runs"]} for i in ok]
    traces = []
    if c.prop == "C15":
        first = {}
        for k, x in enumerate(cases):
            first.setdefault(x["text"], k)
        for i, o in enumerate(outs):
            if o["r"] in ("ok", "err"):
                traces.append((cases[first[mods[i]["text"]]],
                               {"sch": i + 1, "events": [{"e": "compiled", "ok": o["r"] == "ok"}]}))
    swept = 0
    for i, res in zip(ok, ts.run_modules(c, jobs)):
        m = mods[i]
        for name in m["enums"]:
            mem = [e["members"] for e in res["decls"]["enums"] if e["name"] == name]
            if not mem and name != "En":
                continue
            traces.append((cases[m["src"][0]], {"sch": i + 1, "events": [
                {"e": "consts", "enum": name, "members": mem[0] if mem else []}]}))
        for r, src, group in zip(m["runs"], m["src"], res.get("runs", [])):
            for t in group:
                swept += t.get("tried", 0)
                traces.append(({"ast": m["ast"], "text": m["text"], "run": r, "enums": []},
                               {"sch": i + 1, "events": t["events"]}))
    c.notes["schemas_compiled"] = c.notes.get("schemas_compiled", 0) + len(mods)
    c.notes["schemas_accepted"] = c.notes.get("schemas_accepted", 0) + len(ok)
    if swept:
        c.notes["enum_numbers_decoded"] = swept
    return [m["ast"] for m in mods], traces


def judge(c, binary, cases):
    asts, traces = run_cases(c, binary, cases)
    path = os.path.join(c.work, "schemas-%d.ndjson" % len(os.listdir(c.work)))
    with open(path, "w") as fh:
        for a in asts:
            fh.write(json.dumps({"ast": a}) + "\n")
    before = len(c.rejects)
    bad = c.validate("TraceWire", [t[0] for t in traces], [t[1] for t in traces], env={"SCHEMAS": path})
    return traces, c.rejects[before:], bad


# ---------------------------------------------------------------- C17


def session_plans(c, more, stride):
    """Sequences of operations, written out by TLC."""
    out = os.path.join(c.work, "codec-%d.ndjson" % more)
    rc, txt, _, _ = vp.tlc("GenCodec", "GenCodec.cfg", c.work,
                           env={"MORE": str(more), "STRIDE": str(stride), "PHASE": str(c.rng.randrange(stride)), "OUT": out})
    if rc != 0 or not os.path.exists(out):
        raise vp.ToolError("GenCodec failed:\n" + txt[-3000:])
    with open(out) as fh:
        return [json.loads(l)["ops"] for l in fh]


def pokes(rng):
    return [[rng.random(), rng.choice([0, 1, 2, 3, 4, 8, 16, 127, 128, 255, rng.randrange(256)])]
            for _ in range(rng.choice([1, 1, 2, 4]))]


def random_plan(rng, n):
    """A longer session over four packets and three buffers."""
    ops, live, have = [], [], []
    for _ in range(n):
        kinds = ["new"] + ["write", "set", "write"] * bool(live) + ["read", "read", "read", "damage"] * bool(have) + ["trip"]
        op = {"op": rng.choice(kinds)}
        if op["op"] in ("new", "read"):
            op["p"] = rng.randint(1, 4)
            live = sorted(set(live) | {op["p"]})
        if op["op"] in ("write", "set"):
            op["p"] = rng.choice(live)
        if op["op"] == "write":
            op["b"] = rng.randint(1, 3)
            have = sorted(set(have) | {op["b"]})
        if op["op"] in ("read", "damage"):
            op["b"] = rng.choice(have)
        ops.append(op)
    return ops


def session_cases(c):
    rng, cases = c.rng, []
    pool = [a for a in schema_pool(c, c.pick(700, 3000))
            if sum(len(d.get("fields", [])) for d in a) <= 60]

    def add(ast, plan):
        vs = [values.leaves(rng, ast, s, budget=24) for s in ("full", "mixed")]
        ops = []
        for o in plan:
            o = dict(o)
            if o["op"] in ("new", "set"):
                v = o.pop("v", 0)
                o["leaves"] = vs[v - 1] if v else values.leaves(rng, ast, rng.choice(["mixed", "full", "zero", "empty"]), budget=24)
            elif o["op"] == "damage":
                o["pokes"] = pokes(rng)
            elif o["op"] == "write":
                o["buf"] = rng.random() < 0.3
            ops.append(o)
        cases.append({"ast": ast, "text": gen.render(ast),
                      "run": {"kind": "session", "ops": ops, "nil": rng.choice(["undefined", "omit", "null"])}})

    plans = []
    for more, stride in c.pick([(2, 1), (3, 9)], [(3, 1), (4, 40)]):
        plans += session_plans(c, more, stride)
    rng.shuffle(plans)
    for k, plan in enumerate(plans):
        add(pool[k % len(pool)], plan)
    for ast in pool:
        for _ in range(c.pick(1, 3)):
            add(ast, random_plan(rng, rng.choice([8, 14, 20])))
    return cases


def sessions(c):
    binary = vp.build_harness("pkh")
    with ThreadPoolExecutor(2) as ex:
        jobs = []
        if c.only is None:
            jobs.append(ex.submit(c.mc, "MCCodec", "MCCodec_%s.cfg" % c.pick("quick", "deep"), c.pick(2, 4)))
            for f in ("item", "buffer", "clears", "lazy", "sticky"):
                jobs.append(ex.submit(c.mc, "MCCodec", "MCCodec_%s.cfg" % f, 2, expect_violation="Agree"))
            cases = session_cases(c)
        else:
            cases = c.only
        _, traces = run_cases(c, binary, cases)
        c.validate("TraceCodec", [t[0] for t in traces], [{"events": t[1]["events"]} for t in traces])
        for j in jobs:
            j.result()
    count = {}
    for _, r in traces:
        for e in r["events"]:
            count[e["op"]] = count.get(e["op"], 0) + 1
            if e.get("refused"):
                count["refused"] = count.get("refused", 0) + 1
    c.notes["operations"] = count
    for case, rec in traces[:: max(1, len(traces) // 3)]:
        c.sample({"text": case["text"][:300], "events": [{k: str(v)[:80] for k, v in e.items()} for e in rec["events"][:6]]})
    c.assumptions += ["the packet runtime (module \"packet\") is not part of the repository: a stand-in is used, "
                      "which returns a new buffer for each packet and only reads the buffers it is given"]


def known_cases(c, binary):
    listed = known.cases(c.prop)
    if not listed:
        return []
    _, rej, _ = judge(c, binary, [case for _, _, case in listed])
    del c.rejects[len(c.rejects) - len(rej):]
    texts = {r[0]["text"] for r in rej}
    return known.settle(c, [(name, what, case["text"] in texts) for name, what, case in listed])


def wire(c):
    binary = vp.build_harness("pkh")
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["quick"], ["quick", "pairs", "long", "live"]):
                jobs.append(ex.submit(c.mc, "MCWire", "MCWire_%s.cfg" % f, c.pick(2, 4)))
            cases = sweep_cases(c) if c.prop == "C15" else make_cases(c)
        else:
            cases = c.only
        traces, _, _ = judge(c, binary, cases)
        for j in jobs:
            j.result()
    c.notes["recorded_calls"] = sum(len(t[1]["events"]) for t in traces)
    ends = [t[1]["events"][-1] for t in traces if t[1]["events"] and t[1]["events"][-1]["e"] == "rend"]
    c.notes["decoder_runs"] = {"total": len(ends), "refused": sum(1 for e in ends if e["null"]),
                               "value": sum(1 for e in ends if not e["null"] and not e["threw"])}
    for case, rec in traces[:: max(1, len(traces) // 4)]:
        c.sample({"text": case["text"][:400], "events": rec["events"][:12]})
    c.assumptions += ["the packet runtime (module \"packet\") is not part of the repository: a logging stand-in with "
                      "little endian numbers and one byte per character is used",
                      "32-bit numbers above the clamp are made small in damaged packets (see known findings)"]
    if c.only is None:
        return known_cases(c, binary)
