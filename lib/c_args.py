"""C23: command lines of the tool.

The tool runs as an unprivileged user inside a scratch directory.
"""
import itertools
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import c_cli
import vp

WORDS = ["ts", "TS", "rs", "in", "o", "", "-", "--", "-h", "--help", "-V", "--version", "-x", "in/a.pkt", "none", "--hel"]
MORE = ["tS", "Ts", "tsx", "t", "s", "ts ", " ts", "TypeScript", "typescript", "rust", "js", "tſ", "ＴＳ", "ts\udcff",
        "bad", "in\udcff", "o\udcff", "-\udcff", "sp ace", "o o", "o ", " o", "o\n", "\to", "ö", "-in", "--out", "--in", "-o", "--lang", "--ts", "-ts",
        "--version=1", "--help=1", "--help=", "-hV", "-Vh", "-hx", "-xh", "-help", "--HELP", "-H", "-v", "---", "---help", "----",
        "help", "version", "lo" * 60, "in/s", "in/s/b.pkt", "in/c.txt", "o/p/q", "./in", "o/", "=", "ts=in", "@in", "%", "$HOME", "*",
        "~", "in,o", "/dev/null/x", "-/d.pkt", "--/g.pkt", "-1", "0", "--help ", " --help", "-h ", "\\", "'in'", "\"o\""]
TREE = ["in/a.pkt", "in/s/b.pkt", "in/c.txt", "-/d.pkt", "--help/e.pkt", "-h/f.pkt", "--/g.pkt", "-x/h.pkt", "TS/i.pkt", "ts/j.pkt",
        "bad/k.pkt", "in\udcff/l.pkt", "sp ace/m.pkt", "-V/n.pkt", "--version/o.pkt", "o/other.txt", "*/p.pkt", "help/q.pkt"]
INPUTS = ["in", "in", "in", "in/a.pkt", "-", "--", "--help", "-h", "-x", "TS", "ts", "bad", "in\udcff", "sp ace", "none", "*", "help",
          "in/s", "-V", "./in", "in/c.txt"]
OUTPUTS = ["o", "o", "o", "out", "-", "--", "--help", "-h", "-q", "ts", "TS", "in", "o\udcff", "o o", "in/a.pkt", "o/p/q", "o ", " o", "o.ts", "O", "ö", "*", "--version"]
ENVS = [{}, {}, {"LANG": "C.UTF-8"}, {"LC_ALL": "C"}, {"RUST_BACKTRACE": "1"}, {"NO_COLOR": "1"}, {"TERM": "dumb", "COLUMNS": "20"},
        {"OUT_DIR": "elsewhere", "OUT": "elsewhere"}, {"PACKETC_OUT": "elsewhere", "PACKETC_LANG": "rust", "PACKETC_PATH": "none"},
        {"PATH": ""}, {"HOME": "/nonexistent", "PWD": "/nonexistent"}, {"LANG_": "ts", "IN": "none", "RUST_LOG": "trace"},
        {"CARGO_MANIFEST_DIR": "/nonexistent"}, {"TMPDIR": "/nonexistent"}, {"DEBUG": "1", "CI": "true", "VERBOSE": "1"}]
STDINS = ["", "", "", "ts in o\n", "A: struct { a: uint8 }\nexport A\n", "y\n" * 1000]


def good_line(rng):
    """A command line which asks for a run, spelt in some way."""
    a = [rng.choice(["ts", "ts", "TS", "tS", "Ts"]), rng.choice(INPUTS), rng.choice(OUTPUTS)]
    first = next((k for k, x in enumerate(a) if x.startswith("-") and x != "-"), None)
    if first is not None:
        a.insert(rng.randint(0, first), "--")
    elif rng.random() < 0.4:
        a.insert(rng.randint(0, 3), "--")
    return a


def a_line(rng):
    r = rng.random()
    if r < 0.1:
        return [rng.choice(WORDS + MORE) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 9]))]
    a = good_line(rng)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        w, k = rng.choice(WORDS + MORE), rng.randrange(len(a) + 1)
        how = rng.random()
        if how < 0.45:
            a.insert(k, w)
        elif k < len(a) and how < 0.8:
            a[k] = w
        elif k < len(a) and how < 0.9:
            a[k] = a[k].swapcase()
        elif k < len(a):
            del a[k]
    return a


def languages(rng, n):
    """Names of languages, right ones and others like them."""
    out = ["typescript"[:k] for k in range(1, 11)] + ["TypeScript", "rust", "rs", "js", "javascript", "java", "c", "cpp", "go", "t.s", "ts2", "2"]
    for _ in range(n):
        w = rng.choice(["ts", "TS", "ts", "typescript", "rust"])
        k, ch = rng.randrange(len(w) + 1), rng.choice("stSTxrabe .-_0\n")
        w = rng.choice([w[:k] + ch + w[k:], w[:k] + ch + w[k + 1:], w[:k] + w[k + 1:], w[::-1], w.swapcase(), w + w])
        out.append(w)
    return out


def make_cases(c):
    rng = c.rng
    lines = [list(x) for n in range(c.pick(4, 5)) for x in itertools.product(WORDS, repeat=n)]
    lines += [a_line(rng) for _ in range(c.pick(4000, 12000))]
    lines += [[w, rng.choice(["in", "in/a.pkt"]), "o"] for w in languages(rng, c.pick(400, 4000))]
    cases = [{"args": a, "cwd": "", "env": {}, "stdin": ""} for a in lines]
    for x in cases:
        if rng.random() < 0.3:
            x.update(env=rng.choice(ENVS), stdin=rng.choice(STDINS))
        if rng.random() < 0.1:
            x["cwd"] = rng.choice(["in", "in/s", "-", "o"])
            if rng.random() < 0.8:
                x["args"] = [os.path.join(os.path.relpath(".", x["cwd"]), a) if a in INPUTS + OUTPUTS and a.lower() != "ts" and a[0] != "-" else a
                             for a in x["args"]]
    return [x for x in cases if not any(a.startswith("/") for a in x["args"])]


class Place(c_cli.Box):
    """The tree, put back whenever a run has changed it."""

    def __init__(self, c, n, tree, data):
        super().__init__(c, n)
        self.tree, self.data, self.clean = tree, data, False

    def reset(self):
        if not self.clean:
            shutil.rmtree(self.top, ignore_errors=True)
            os.makedirs(self.top)
            c_cli.give(self.top)
            for p, t in self.tree.items():
                self.put(p, self.data[t])
            self.before = {x["p"]: x["t"] for x in self.snapshot()}, set(self.dirs())
            self.clean = True

    def do(self, tool, case):
        self.reset()
        argv = case["args"]
        try:
            r = subprocess.run([tool] + argv, cwd=self.path(case["cwd"]), input=case["stdin"].encode(), timeout=60, capture_output=True,
                               **self.how, env={"PATH": "/usr/bin:/bin", **case["env"]})
            zero, out, err = r.returncode == 0, len(c_cli.lines(r.stdout)), len(c_cli.lines(r.stderr))
        except subprocess.TimeoutExpired:
            zero, out, err = False, 0, 0
        files, dirs = {x["p"]: x["t"] for x in self.snapshot()}, set(self.dirs())
        f0, d0 = self.before
        seen = [os.path.relpath(os.path.join(self.path(case["cwd"]), a), self.top) for a in argv]
        rec = {"args": [c_cli.plain(a) for a in argv], "paths": ["" if p == "." else c_cli.plain(p) for p in seen], "zero": zero, "out": out, "err": err,
               "put": [{"p": p, "t": t} for p, t in sorted(files.items()) if f0.get(p) != t],
               "gone": sorted(p for p in list(f0) + list(d0) if p not in files and p not in dirs),
               "made": sorted(dirs - d0)}
        self.clean = not (rec["put"] or rec["gone"] or rec["made"])
        return rec


def args(c):
    binary = vp.build_harness("pkh")
    tool = os.path.join(c.work, "packetc")
    shutil.copy(vp.build_cli(), tool)
    os.chmod(c.work, 0o755)
    os.chmod(tool, 0o755)
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["quick", "live"], ["quick", "live", "deep"]):
                jobs.append(ex.submit(c.mc, "MCArgs", "MCArgs_%s.cfg" % f, 2))
            for f in ("options", "more", "early"):
                jobs.append(ex.submit(c.mc, "MCArgs", "MCArgs_%s.cfg" % f, 1, expect_violation="Understood"))
            cases = make_cases(c)
        else:
            cases = c.only
        data, tree = {}, {}
        for k, p in enumerate(TREE):
            d = b"nothing\n" if "bad" in p or p.endswith(".txt") else b"T%d: struct { f%d: uint8 }\nexport T%d\n" % (k, k, k)
            tree[p] = c_cli.token(d)
            data[tree[p]] = d
        tab = c_cli.table(binary, data)
        env = {"TREE": os.path.join(c.work, "tree.ndjson"), "RESULTS": os.path.join(c.work, "results.ndjson")}
        with open(env["TREE"], "w") as fh:
            for p, t in tree.items():
                fh.write(json.dumps({"p": c_cli.plain(p), "t": t}) + "\n")
        with open(env["RESULTS"], "w") as fh:
            for t, r in tab.items():
                fh.write(json.dumps({"tok": t, "res": r}) + "\n")
        places = [Place(c, n, tree, data) for n in range(vp.CORES)]

        def go(k):
            return [(i, places[k].do(tool, cases[i])) for i in range(k, len(cases), vp.CORES)]

        with ThreadPoolExecutor(vp.CORES) as ex2:
            recs = dict(x for part in ex2.map(go, range(vp.CORES)) for x in part)
        recs = [recs[i] for i in range(len(cases))]
        c.validate("TraceArgs", cases, recs, env=env)
        for j in jobs:
            j.result()
    c.notes["command_lines"] = {"total": len(recs), "status_zero": sum(r["zero"] for r in recs), "that_wrote": sum(bool(r["put"]) for r in recs),
                                "with_double_dash": sum("--" in r["args"] for r in recs)}
    for r in recs[:: max(1, len(recs) // 4)]:
        c.sample(r)
    c.assumptions += ["the tool runs as an unprivileged user inside a scratch directory",
                      "a command line which both asks for help or the version and has something wrong may be answered or refused"]
