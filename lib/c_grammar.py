"""C07, C08, C09: the schema language, syntax errors, totality."""
import json
import re
from concurrent.futures import ThreadPoolExecutor

import gen
import known
import layout
import vp

MESSAGE = re.compile(r"Unexpected token '(.)' at line (\d+), column (\d+)\n\|\n\|  (.*?)\n\|~~(~*)\^\n?\Z", re.S)


def char(c):
    """One character as the specification sees it (plain ASCII)."""
    return c if 32 <= ord(c) < 127 or c in "\n\t\r" else "<%x>" % ord(c)


def chars(s):
    return [char(c) for c in s]


def outcome(o):
    r = {"r": o["r"], "kind": o.get("kind", ""), "tok": "", "line": 0, "col": 0, "shown": [], "marks": 0, "form": False}
    if r["r"] == "err" and r["kind"] == "parse":
        m = MESSAGE.search(o["msg"])
        if m and int(m.group(2)) < 1 << 30 and int(m.group(3)) < 1 << 30:
            r.update(tok=char(m.group(1)), line=int(m.group(2)), col=int(m.group(3)), shown=chars(m.group(4)),
                     marks=len(m.group(5)), form=True)
    return r


def observe(c, cases, timeout=60):
    pk, pp = vp.build_harness("pkh"), vp.build_harness("pkparse")
    reqs = [{"id": i, "text": x["text"], "reps": 1} for i, x in enumerate(cases)]
    outs = vp.run_harness(pk, reqs, timeout)
    parses = vp.run_harness(pp, reqs, timeout)
    recs = []
    for x, o, p in zip(cases, outs, parses):
        recs.append({"chars": chars(x["text"]), "hasWant": x.get("want") is not None, "want": x.get("want") or [],
                     "parse": {"r": p["parse"]["r"], "ast": p["parse"].get("ast", [])},
                     "out": outcome(o["outcomes"][0])})
    return recs


def emitted(c, cfg):
    """All texts of a bounded exploration of the grammar, written out by TLC."""
    rc, out, gen_, dist = vp.tlc("MCGrammar", cfg, c.work, workers=2)
    if rc != 0:
        raise vp.ToolError("MCGrammar %s failed:\n%s" % (cfg, out[-3000:]))
    c.states += dist
    c.transitions += gen_
    texts = []
    for line in out.split("\n"):
        if line.startswith('"TEXT '):
            texts.append(json.loads(json.loads(line)[5:]))
    return texts


def long_texts(rng):
    out = []
    for ast in gen.big_schemas(rng, False):
        t = gen.render(ast)
        if len(t) < 12000:
            out.append((t, ast))
    out.append(("#" + "x" * 5000 + "\n" + "\n" * 500 + "A: struct { }\nexport A", [gen.S("A", []), gen.X("A")]))
    out.append(("\n" * rng.randint(4200, 9000) + "A: struct { }\nexport A", [gen.S("A", []), gen.X("A")]))
    out.append(("\n" * rng.randint(66000, 70000) + "A: struct { }\nexport A", [gen.S("A", []), gen.X("A")]))
    out.append((" " * rng.randint(50000, 60000) + "A: struct { }\nexport A", [gen.S("A", []), gen.X("A")]))
    out.append((" \t" * 1000 + "A" * 2000 + ": enum { " + "B" * 2000 + " }", [gen.E("A" * 2000, ["B" * 2000])]))
    return out


def language(c):
    rng, prop = c.rng, c.prop
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["top", "struct", "enum"], ["top8", "struct8", "enum8"]):
                jobs.append(ex.submit(c.mc, "MCGrammar", "MCGrammar_%s.cfg" % f, 2))
            cases = make_cases(c)
        else:
            cases = c.only
        recs = observe(c, cases)
        c.validate("TraceGrammar", cases, recs)
        for j in jobs:
            j.result()
    spec_bug = [w for _, w in c.rejects if w.startswith("SPECIFICATION")]
    if spec_bug:
        raise vp.ToolError(spec_bug[0])
    c.notes["texts"] = len(cases)
    c.notes["parser_answers"] = {k: sum(1 for r in recs if r["parse"]["r"] == k) for k in ("ok", "err", "panic", "abort", "hang")}
    c.notes["compiler_answers"] = {k: sum(1 for r in recs if (r["out"]["r"], r["out"]["kind"]) == tuple(k.split("/")))
                                   for k in ("ok/", "err/parse", "err/check", "panic/", "abort/", "hang/")}
    c.notes["characters"] = sum(len(r["chars"]) for r in recs)
    for x in cases[:: max(1, len(cases) // 5)]:
        c.sample({"text": x["text"][:300]})
    c.assumptions += ["characters outside printable ASCII are shown to the specification under their code point"]
    if c.only is None:
        return known_answers(c)


def chain(n):
    """n structs, each inside the one before."""
    return [gen.S("S%d" % i, [gen.F("n", "S%d" % (i + 1))]) for i in range(n)] + [gen.S("S%d" % n, []), gen.X("S0")]


def doubling(n):
    """n structs, each twice inside the one before."""
    return [gen.S("S%d" % i, [gen.F("a", "S%d" % (i + 1)), gen.F("b", "S%d" % (i + 1))]) for i in range(n)] \
        + [gen.S("S%d" % n, [gen.F("v", "uint8")]), gen.X("S0")]


def known_answers(c):
    listed = known.cases(c.prop)
    if not listed:
        return []
    binary, cases, recs = vp.build_harness("pkh"), [], []
    for k, (name, what, case) in enumerate(listed):
        ast = chain(case["chain"]) if "chain" in case else doubling(case["doubling"])
        cases.append({"text": gen.render(ast)})
    res = vp.run_harness(binary, [{"id": k, "text": x["text"], "reps": 1} for k, x in enumerate(cases)], 15, len(cases), memory=2 << 30)
    for r in res:
        recs.append({"ast": [], "outs": [{"r": o["r"], "kind": o.get("kind", ""), "lines": []} for o in r["outcomes"]]})
    before = len(c.rejects)
    bad = {i for i, _ in c.validate("TraceCheck", cases, recs)}
    del c.rejects[before:]
    return known.settle(c, [(name, what, k in bad) for k, (name, what, _) in enumerate(listed)])


def make_cases(c):
    rng, prop = c.rng, c.prop
    cases, seen = [], set()

    def add(text, want=None):
        if text not in seen:
            seen.add(text)
            cases.append({"text": text, "want": want})

    # exhaustive: all texts of a few chunks, from the specification
    for cfg, n in c.pick([("emit_top4", 2500), ("emit_struct4", 2500), ("emit_field4", 2500), ("emit_enum4", 1500), ("emit_export4", 1000)],
                         [("emit_top5", 40000), ("emit_struct5", 40000), ("emit_field5", 40000), ("emit_enum5", 30000), ("emit_export5", 20000)]):
        texts = emitted(c, "MCGrammar_%s.cfg" % cfg)
        rng.shuffle(texts)
        for t in texts[:n]:
            add(t)
    n_valid, n_dmg, n_junk = {"C07": (2500, 600, 300), "C08": (200, 3500, 1200), "C09": (600, 2500, 3000)}[prop]
    k = c.pick(1, 8)
    for _ in range(n_valid * k):
        ast = layout.any_ast(rng)
        add(layout.Layout(rng).text(ast), ast)
    for _ in range(n_dmg * k):
        ast = gen.checked_schema(rng) if rng.random() < 0.3 else gen.valid_schema(rng, n_structs=rng.choice([1, 1, 2]), n_enums=rng.choice([0, 1]), max_fields=3)
        text = gen.render(ast) if rng.random() < 0.4 else layout.Layout(rng).text(ast)
        if rng.random() < 0.3:
            text = rng.choice(["# é\n", "# \U0001f600 中\n", "#\n\n\n", "\r\n"]) + text
        add(layout.damage(rng, text))
    for _ in range(n_junk * k):
        add(layout.junk(rng))
    for t, ast in long_texts(rng):
        add(t, ast)
        if prop != "C07":
            add(layout.damage(rng, t))
            add(t + "$")
    for ast in gen.sized_schemas(rng):
        add(layout.Layout(rng).text(ast), ast)
    if prop == "C09":
        for _ in range(c.pick(1500, 10000)):
            add(gen.render(gen.checked_schema(rng)))
    # words of the language and ones which look like them, at every place of a name
    for w in gen.RESERVED + ["export"]:
        for x in [w, w + "x", w + "_", w + "0", "_" + w, w[:-1], w[1:], w.capitalize(), w.upper(), w + w]:
            for t in ("%s: struct { a: uint8 }\nexport A", "%s: enum { B }\n", "A: struct { %s: uint8 }\nexport A", "A: struct { %s?: A, }",
                      "A: struct { b: uint8 %s: uint8 }", "A: enum { %s }", "A: enum { B, %s, C }\n", "A: enum { B %s}", "A: struct { a: %s[] }",
                      "A: struct { a: %s }\nexport A\n", "export %s", "export %s\nB: enum { C }", "%s A", "%s", "A: %s { B }", "A: %s { a: uint8 }"):
                add(t % x)
    # what other languages have, at every place
    for f in layout.FOREIGN + [chr(i) for i in range(128)]:
        for t in ("A: struct { }\nexport A\n", "A: struct { }\nexport A", ""):
            for sep in ("", " ", "\n"):
                add(f + sep + t)
                add(t + sep + f)
                add(t + f + sep)
    full = "# c\nA: enum { B, C }\nD: struct { e?: A[], f: string }\n# g\nexport D\n"
    places = list(layout.grid(full))
    for t in rng.sample(places, min(len(places), c.pick({"C07": 300, "C08": 4000, "C09": 1000}[prop], 6000))):
        add(t)
    for _ in range(0 if prop == "C07" else c.pick(150, 2000)):
        ast = gen.valid_schema(rng, n_structs=rng.choice([1, 2, 6]), n_enums=1, max_fields=rng.choice([3, 8]))
        add(layout.long_line(rng, layout.Layout(rng).text(ast)))
    # every truncation of a few texts
    for _ in range(c.pick(4, 40)):
        t = layout.Layout(rng).text(gen.valid_schema(rng, n_structs=2, n_enums=1, max_fields=3))
        for i in range(len(t)):
            add(t[:i])
    return cases
