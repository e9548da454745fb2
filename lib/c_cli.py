"""C12, C13, C14, C19: the command line tool over trees of files.

The tool is run as an unprivileged user inside a scratch directory; nothing
else is writable for it.
"""
import contextlib
import hashlib
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import gen
import vp

NOBODY = 65534
# a proper schema in a file which may not be read
LOCKED = b"# locked\nLocked: struct { a: uint8 }\nexport Locked\n"


def as_nobody():
    """How to start a process as nobody, if that is possible here."""
    how = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    try:
        subprocess.run(["/bin/true"], check=True, **how)
        return how
    except (OSError, subprocess.SubprocessError):
        return {}


def give(path):
    with contextlib.suppress(OSError):
        os.chown(path, NOBODY, NOBODY)


def sha(b):
    return hashlib.sha256(b).hexdigest()[:20]


def token(data):
    """Contents as tokens; generated files without their leading comment."""
    if data.startswith(b"//") and b"\n" in data:
        return "g" + sha(data.split(b"\n", 1)[1])
    return "c" + sha(data)


class Contents:
    """Contents of schema files, and what the library alone makes of them."""

    def __init__(self, c, binary):
        rng = c.rng
        self.odd = c.prop != "C19"        # which looks at paths in texts
        valid, invalid = [], []
        self.asts = {}
        for k in range(c.pick(30, 120)):
            a = gen.valid_schema(rng, codegen=False, cap=30, n_structs=1 if k % 5 == 0 else None)
            valid.append(gen.render(a).encode())
        # pairs whose outputs differ but have the same length
        twins = []
        for _ in range(c.pick(10, 40)):
            a = gen.valid_schema(rng, codegen=False, cap=30, n_structs=1)
            pair = twin(a)
            if pair:
                twins.append([gen.render(a).encode(), gen.render(pair).encode()])
                valid += twins[-1]
        long = [gen.S("Long", [gen.F("f%d" % i, "string", arr=True) for i in range(60)]), gen.X("Long")]
        huge = [gen.S("Huge", [gen.F("f%d" % i, "string", arr=True) for i in range(900)]), gen.X("Huge")]
        valid += [(b"#" + b"x" * 79 + b"\n") * 15000 + b"A: struct { a: uint8 }\nexport A\n"]
        valid += [gen.render(huge).encode(), b"#" + b"x" * 150000 + b"\nA: struct { a: uint8 }\nexport A\n"]
        valid += [gen.render(long).encode(), b"A: struct { a: uint8 }\nexport A\n", b"A: struct { a: uint8 }\nexport A",
                  b"A: struct { }\r\nexport A\r\n", b"# c\n\n\nA: struct {\n  a?: float,\n}\nexport A\n\n"]
        for k in range(c.pick(12, 60)):
            a = gen.valid_schema(rng, codegen=False, cap=30)
            rng.choice(gen.DEFECTS)(a, rng)
            invalid.append(gen.render(a).encode())
            self.asts[token(invalid[-1])] = a
        invalid += [b"", b"\n", b"A: struct { a: uint8 }", b"A: struct { a: uint8 \nexport A", b"export A", b"A",
                    b"A: struct { a: uint8 }\nexport A\n\xff\xfe", b"\xff", "Ä: struct { }\nexport Ä\n".encode(),
                    b"\xef\xbb\xbfA: struct { a: uint8 }\nexport A\n", b"A: struct { a: uint8 }\nexport A\n }"]
        # valid but for bytes which are no text, in a comment
        for b in (b"\xff", b"\xe9", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80"):
            invalid += [b"# " + b + b" c\nA: struct { a: uint8 }\nexport A\n", b"A: struct { a: uint8 } #" + b + b"\nexport A\n"]
        invalid += ["A: struct { a: uint8 }\nexport A\n".encode(k) for k in ("utf-16", "utf-16-le", "utf-32-le")]
        valid += ["# é 中 \U0001f600 \ufeff\nA: struct { a: uint8 }\nexport A\n".encode()]
        if as_nobody():
            invalid += [LOCKED]
        self.data = {}
        for d in valid + invalid:
            self.data[token(d)] = d
        self.table = table(binary, self.data)
        self.good = [t for t in self.data if self.table[t] != "FAILS"]
        self.bad = [t for t in self.data if self.table[t] == "FAILS"]
        self.twin = {}
        for x, y in twins:
            self.twin[token(x)], self.twin[token(y)] = token(y), token(x)
        if len(self.good) < 3 or len(self.bad) < 3:
            raise vp.ToolError("no usable contents: %d good, %d bad" % (len(self.good), len(self.bad)))


def twin(ast):
    """The same schema with another letter at the end of the name of a field."""
    b = json.loads(json.dumps(ast))
    for d in b:
        if d["n"] == "struct" and d["fields"]:
            f, have = d["fields"][-1], {g["name"] for g in d["fields"]}
            for ch in "qzk":
                if f["name"][:-1] + ch not in have:
                    f["name"] = f["name"][:-1] + ch
                    return b
    return None


def reasons(binary, data, asts):
    """Why each content is refused: what the library says about a text outside
    the language, or the declarations of which TLC knows the defects."""
    out = {t: {"kind": "", "lines": [], "ast": []} for t in data}
    texts = {}
    for t, d in data.items():
        with contextlib.suppress(UnicodeDecodeError):
            if d != LOCKED:
                texts[t] = d.decode("utf-8")
    for t, r in zip(texts, vp.run_harness(binary, [{"id": i, "text": x} for i, x in enumerate(texts.values())])):
        o = r["outcomes"][0]
        if o["r"] == "err" and o["kind"] == "parse":
            out[t] = {"kind": "parse", "lines": [l for l in o["msg"].split("\n")[1:] if l], "ast": []}
        elif o["r"] == "err" and t in asts:
            out[t] = {"kind": "check", "lines": [], "ast": asts[t]}
    return out


def table(binary, data):
    reqs, keys = [], []
    res = {}
    for t, d in data.items():
        if d == LOCKED:
            res[t] = "FAILS"
            continue
        try:
            reqs.append({"id": len(reqs), "text": d.decode("utf-8"), "reps": 1})
            keys.append(t)
        except UnicodeDecodeError:
            res[t] = "FAILS"
    for t, r in zip(keys, vp.run_harness(binary, reqs)):
        o = r["outcomes"][0]
        res[t] = "FAILS"
        if o["r"] == "ok":
            res[t] = token(((o["meta"] + "\n") if o["meta"] else "").encode() + o["body"].encode())
    return res


# ---------------------------------------------------------------- histories

NAMES = ["a", "b", "c", "A", "a.b", "x.y.z", "sp ace", "ü", ".hidden", "a.pkt", "a..", "long" * 12, "n_1", "a.ts", "(1)",
         "in", "out", "export", "-d", "index", "mod", "_p", "a.test", "a.d", "a~", "#a#", "a.bak", "0", "README"]
EXTRA = ["readme.txt", "a.pktx", "b.PKT", "pkt", "apkt", "a.pkt.bak", "b.ts", "x.pkt~", "noext", "a.Pkt", "a.pk"]
DIRS = ["", "s", "s/t", "s/t/u/v", "d.pkt", "d.pkt/e", ".dot", "sp ace", "a", "in", "x.y", "node_modules", "target", "s/build",
        ".git", "_", "test", "out", "tmp", "0"]
# names which are not UTF-8, or mean something elsewhere
ODD = ["b\udcff", "\udcc3.b", "a\\b", "new\nline", " lead", "trail ", "a*", "%20", "{}", "$x", "a?", "'q'", "a;b", "~"]
TIMES = [86400 * 365, 1000000000, 2000000000, 4000000000]
OUTS = ["out", "out", "out", "out/deep/er", "in", "in/s", "o.ut", "new dir", "", "out.ts"]


def tree(rng, ct, broken):
    """Random input files below in/, some files which are none, and others."""
    files, used = {}, set()
    names, where = NAMES + ODD * ct.odd, DIRS + ["s/" + d for d in ODD] * ct.odd
    dirs = rng.sample(where, rng.randint(1, 5))
    count = rng.choice([0, 1, 2, 3, 4, 6, 9])
    if rng.random() < 0.02:
        count = rng.choice([17, 33, 65, 130, 270])
        dirs = dirs + ["/".join("p%d" % k for k in range(rng.choice([9, 17, 40, 80, 140])))]
    for k in range(count):
        d = rng.choice(dirs)
        p = ("in/%s/%s.pkt" % (d, "f%d" % k if count > 9 else rng.choice(names))).replace("//", "/")
        files[p] = rng.choice(ct.good)
    for _ in range(rng.randint(0, 3)):
        p = ("in/%s/%s" % (rng.choice(dirs), rng.choice(EXTRA))).replace("//", "/")
        files[p] = rng.choice(ct.good + ct.bad)
    if rng.random() < 0.5:
        files["out/other.txt"] = rng.choice(ct.bad)
    if rng.random() < 0.3:
        files["out/" + rng.choice(["old.ts", "s/old.ts", "b.pkt", "z.pkt"])] = rng.choice(ct.good)
    if rng.random() < 0.3:
        files[rng.choice(["top.pkt", "side/a.pkt", "side/in/b.pkt"])] = rng.choice(ct.good + ct.bad)
    if broken:
        pk = [p for p in files if p.endswith(".pkt") and p.startswith("in/")]
        if not pk or rng.random() < 0.3:
            pk = [("in/%s/%s.pkt" % (rng.choice(dirs), rng.choice(names))).replace("//", "/")]
        for p in rng.sample(pk, min(len(pk), rng.choice([1, 1, 2]))):
            files[p] = rng.choice(ct.bad)
    return consistent(files)


def consistent(files):
    """No path may be both a file and a directory, now or as an output."""
    dirs = set()
    for p in files:
        parts = p.split("/")
        for k in range(1, len(parts)):
            dirs.add("/".join(parts[:k]))
    return {p: t for p, t in files.items() if p not in dirs}


def spell(rng, p, cwd):
    """Other ways to write a path, seen from a directory of the scratch tree."""
    if rng.random() < 0.15:
        return {"abs": p, "tail": rng.choice(["", "", "/"])}
    rel = os.path.relpath(p or ".", cwd or ".")
    r = rng.random()
    if r < 0.2 or rel.startswith("-"):     # which would be an option
        rel = "./" + rel
    elif r < 0.3 and "/" in rel and not rel.startswith(".."):
        rel = rel.replace("/", "//", 1)
    elif r < 0.4 and not rel.startswith("."):
        first = rel.split("/")[0]
        rel = "../%s/%s" % (cwd.split("/")[-1], rel) if cwd else "./" + rel if first == "" else rel
    return {"rel": rel, "tail": rng.choice(["", "", "", "/", "/."])}


def a_run(rng, files):
    cwd = rng.choice(["", "", "", "in", "side"])
    kind = rng.choice(["dir"] * 6 + ["file"] * 3 + ["bad"])
    out = rng.choice(OUTS)
    # arguments have to be UTF-8
    fs = [p for p in files if (p.startswith("in/") or p.startswith("side/") or p == "top.pkt") and plain(p) == p]
    if kind == "file" and fs:
        p = rng.choice(fs)
        args = {"in": dict(spell(rng, p, cwd), tail=""), "out": spell(rng, out, cwd)}
        return {"run": {"kind": "file", "input": p, "out": out}, "cwd": cwd, "args": args, "lang": "ts"}
    if kind == "bad":
        how = rng.choice(["missing", "missing", "lang", "lang", "noout", "nothing", "extra", "emptyinput"])
        return {"run": {"kind": "bad", "input": "", "out": out}, "cwd": cwd, "how": how,
                "args": {"in": {"rel": "in" if not cwd else "../in", "tail": ""}, "out": spell(rng, out, cwd)},
                "lang": rng.choice(["rust", "js", "t", "tsx", ""]) if how == "lang" else "ts"}
    ds = ["in"] * 4 + sorted({os.path.dirname(p) for p in fs if os.path.dirname(p)}) + ["empty"]
    d = rng.choice(ds)
    if rng.random() < 0.05:
        d = ""
    return {"run": {"kind": "dir", "input": d, "out": out}, "cwd": cwd,
            "args": {"in": spell(rng, d, cwd), "out": spell(rng, out, cwd)}, "lang": rng.choice(["ts"] * 9 + ["TS"])}


def plain(p):
    """A path as text, whatever its bytes are."""
    return os.fsencode(p).decode("utf-8", "backslashreplace")


def put(rng, p, t):
    op = {"e": "put", "path": p, "tok": t}
    if p.startswith("in/") and p.endswith(".pkt") and rng.random() < 0.1:
        op["link"] = rng.choice(["file", "dir"])
    elif p.startswith("out/") and rng.random() < 0.15:
        op["link"] = "dir"
    if rng.random() < 0.3:
        op["time"] = rng.choice(TIMES)
    return op


def doors(rng, live, shut):
    """Directories become locked or read-only and open again."""
    if shut:
        return [{"e": "open", "path": shut.pop()}]
    ds = sorted({"/".join(p.split("/")[:k]) for p in live if p.startswith("in/") and p.endswith(".pkt")
                 for k in range(2, len(p.split("/")))})
    if ds and rng.random() < 0.6:
        op = {"e": "lock", "path": rng.choice(ds)}
    else:
        op = {"e": "seal", "path": rng.choice(["out", "out", "in", "out/s"] + ds)}
    shut.append(op["path"])
    return [op]


def guard(rng, ct, last, live, shut):
    """One of the outputs of the last run becomes read-only, mostly while its
    input changes."""
    run = last["run"]
    ps = [run["input"]] if run["kind"] == "file" else \
        [p for p in live if p.startswith(run["input"] + "/") and p.endswith(".pkt")] if run["kind"] == "dir" and run["input"] else []
    ps = [p for p in ps if p in live and live[p] in ct.good]
    if not ps:
        return []
    p = rng.choice(ps)
    rel = os.path.basename(p) if run["kind"] == "file" else p[len(run["input"]) + 1:]
    q = os.path.splitext(os.path.join(run["out"], rel))[0] + ".ts"
    if q in live:
        return []
    shut.append(q)
    ops = [{"e": "seal", "path": q}]
    if rng.random() < 0.8:
        live[p] = ct.twin.get(live[p]) or rng.choice(ct.good)
        ops.append(put(rng, p, live[p]))
    return ops


def history(rng, ct, steps):
    files = tree(rng, ct, rng.random() < 0.35)
    ops = [put(rng, p, t) for p, t in files.items()]
    shut = []
    if rng.random() < 0.15:
        ops += doors(rng, files, shut)
    live = dict(files)
    last = a_run(rng, live)
    ops.append(dict(last, e="run"))
    for _ in range(steps - 1):
        if rng.random() < (0.7 if shut else 0.12):
            ops += doors(rng, live, shut)
        if not shut and rng.random() < 0.15:
            ops += guard(rng, ct, last, live, shut)
            if shut and rng.random() < 0.9:
                ops.append(dict(last, e="run"))
                continue
        if rng.random() < 0.15:
            outs = [p for p in live if p.startswith("in/") and p.endswith(".pkt")]
            if outs:
                p = rng.choice(outs)
                ops.append({"e": "touch", "path": rng.choice([p, "out/" + p[3:-4] + ".ts"]), "time": rng.choice(TIMES)})
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            pk = [p for p in live if p.startswith("in/")]
            r = rng.random()
            if pk and r < 0.35:
                p = rng.choice(pk)
                t = rng.choice(ct.good if rng.random() < 0.7 else ct.bad)
                if live[p] in ct.twin and rng.random() < 0.8:
                    t = ct.twin[live[p]]
            elif pk and r < 0.55:
                p = rng.choice(pk)
                del live[p]
                ops.append({"e": "del", "path": p})
                continue
            elif r < 0.65 and pk:
                # repair everything
                for p in pk:
                    if p.endswith(".pkt") and live[p] in ct.bad:
                        live[p] = rng.choice(ct.good)
                        ops.append(put(rng, p, live[p]))
                continue
            elif r < 0.72:
                p, t = "out/other.txt", rng.choice(ct.bad)
            else:
                d = rng.choice(DIRS + ["s/" + d for d in ODD] * ct.odd)
                p = ("in/%s/%s.pkt" % (d, rng.choice(NAMES))).replace("//", "/")
                t = rng.choice(ct.good)
            new = dict(live)
            new[p] = t
            if len(consistent(new)) != len(new):
                continue
            live[p] = t
            ops.append(put(rng, p, t))
        nxt = last if rng.random() < 0.5 else a_run(rng, live)
        if nxt["run"]["kind"] == "file" and nxt["run"]["input"] not in live:
            nxt = dict(nxt, run=dict(nxt["run"], kind="bad"))
        last = nxt
        ops.append(dict(last, e="run"))
    return ops


# ---------------------------------------------------------------- running


class Box:
    """A scratch directory the tool may write to, as nobody."""

    def __init__(self, c, n):
        self.root = os.path.join(c.work, "box%d" % n)
        self.top = os.path.join(self.root, "w")
        self.store = os.path.join(self.root, "store")     # what links lead to
        os.makedirs(self.root)
        self.how = as_nobody()
        os.chmod(c.work, 0o755)
        os.chmod(self.root, 0o755)

    def fresh(self):
        self.shut = {}
        shutil.rmtree(self.top, ignore_errors=True)
        shutil.rmtree(self.store, ignore_errors=True)
        os.makedirs(self.store)
        for d in ("in", "side", "empty"):
            os.makedirs(os.path.join(self.top, d))
        for d in ("", "in", "side", "empty"):
            give(os.path.join(self.top, d))
        give(self.store)

    def path(self, p):
        return os.path.join(self.top, p)

    def closed(self, p):
        return any(p == d or p.startswith(d + "/") for d in self.shut)

    def door(self, e, p):
        """Opens or closes a directory or file; whether there was one."""
        if not os.path.exists(self.path(p)) or not self.how:
            return False
        if e == "open":
            self.shut.pop(p, None)
        else:
            self.shut[p] = e
        if os.path.isfile(self.path(p)):
            os.chmod(self.path(p), 0o444 if e == "seal" else 0o644)
            return True
        self.modes(p, {"open": (0o755, 0o644), "lock": (0, 0o644), "seal": (0o555, 0o444)}[e])
        return True

    def modes(self, p, mode):
        for d, _, fs in os.walk(self.path(p), topdown=False, followlinks=True):
            for f in fs:
                full = os.path.join(d, f)
                with open(full, "rb") as fh:
                    if fh.read() != LOCKED:
                        os.chmod(full, mode[1])
            os.chmod(d, mode[0] if mode[0] or d == self.path(p) else 0o755)

    def kept(self):
        return os.path.join(self.store, str(len(os.listdir(self.store))))

    def put(self, p, data, when=None, link=None):
        full = self.path(p)
        d = os.path.dirname(full)
        todo = []
        while not os.path.isdir(d):
            todo.append(d)
            d = os.path.dirname(d)
        for x in reversed(todo):
            if link == "dir" and x == todo[0]:
                to = self.kept()
                os.mkdir(to)
                give(to)
                os.symlink(to, x)
            else:
                os.mkdir(x)
            give(x)
        if os.path.isdir(full):
            raise IsADirectoryError(full)
        if link == "file" and not os.path.lexists(full):
            os.symlink(self.kept(), full)
        with open(full, "wb") as fh:
            fh.write(data)
        os.chmod(full, 0 if data == LOCKED else 0o644)
        give(full)
        if when:
            os.utime(full, (when, when))

    def dirs(self):
        return sorted(plain(os.path.relpath(d, self.top)) for d, _, _ in os.walk(self.top, followlinks=True) if d != self.top)

    def snapshot(self):
        out = []
        for d, _, fs in os.walk(self.top, followlinks=True):
            for f in fs:
                full = os.path.join(d, f)
                with open(full, "rb") as fh:
                    out.append({"p": plain(os.path.relpath(full, self.top)), "t": token(fh.read())})
        return sorted(out, key=lambda x: x["p"])

    def run(self, binary, op):
        def arg(a):
            s = self.path(a["abs"]) if "abs" in a else a["rel"]
            return s.rstrip("/") + a["tail"] if a["tail"] else s
        argv = [op["lang"], arg(op["args"]["in"]), arg(op["args"]["out"])]
        how = op.get("how")
        if how == "missing":
            argv[1] = argv[1] + "/none/at/all"
        elif how == "emptyinput":
            argv[1] = ""
        elif how == "noout":
            argv = argv[:2]
        elif how == "nothing":
            argv = []
        elif how == "extra":
            argv.append("more")
        try:
            r = subprocess.run([binary] + argv, cwd=self.path(op["cwd"]), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               **self.how, env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"})
            return r.returncode == 0, self.said(r.stdout, op["cwd"]), lines(r.stderr)
        except subprocess.TimeoutExpired:
            return False, [], []

    def said(self, out, cwd):
        """The paths it says it writes to, seen from the scratch directory."""
        ps = [l[len("Writing to "):] for l in lines(out) if l.startswith("Writing to ")]
        return [os.path.relpath(os.path.join(self.path(cwd), p), self.top) for p in ps]


def lines(b):
    return [l for l in b.decode("utf-8", "replace").split("\n") if l]


def record(box, binary, ops, data):
    """Carries a history out; None if it walks into what is not specified."""
    box.fresh()
    evs = []
    for op in ops:
        if op["e"] in ("lock", "seal", "open"):
            if box.door(op["e"], op["path"]):
                evs.append({"e": op["e"], "path": plain(op["path"])})
        elif op["e"] == "touch":
            with contextlib.suppress(OSError):
                os.utime(box.path(op["path"]), (op["time"], op["time"]))
                evs.append({"e": "touch", "path": plain(op["path"])})
        elif op["e"] == "put":
            if box.closed(op["path"]):
                continue
            try:
                box.put(op["path"], data[op["tok"]], op.get("time"), op.get("link"))
            except OSError:
                return None
            evs.append({"e": "put", "path": plain(op["path"]), "tok": op["tok"]})
        elif op["e"] == "del":
            try:
                os.unlink(box.path(op["path"]))
            except OSError:
                return None
            box.shut.pop(op["path"], None)
            evs.append({"e": "del", "path": plain(op["path"])})
        else:
            # an output which is an input at the same time is not specified
            if overlapping(op["run"]):
                return None
            run = op["run"]
            if run["kind"] != "bad" and not os.path.exists(box.path(run["input"])):
                run = dict(run, kind="bad")
            dirs = box.dirs()
            zero, said, err = box.run(binary, op)
            evs.append({"e": "run", "run": run, "zero": zero, "dirs": dirs, "made": box.dirs(), "files": box.snapshot(), "said": said, "err": err})
    return {"events": evs}


def overlapping(run):
    return run["kind"] == "file" and os.path.splitext(run["input"])[1] == ".ts" and os.path.dirname(run["input"]) == run["out"]


def readable(ops, ct):
    """Only inputs are unreadable: what else has the contents gets others."""
    t = token(LOCKED)
    other = next(x for x in ct.bad if x != t)
    return [dict(op, tok=other) if op["e"] == "put" and op["tok"] == t and not op["path"].endswith(".pkt") else op
            for op in ops]


def model_histories(c, stride, ct):
    out = os.path.join(c.work, "cli.ndjson")
    rc, txt, _, _ = vp.tlc("GenCli", "GenCli.cfg", c.work,
                           env={"STRIDE": str(stride), "PHASE": str(c.rng.randrange(stride)), "OUT": out})
    if rc != 0 or not os.path.exists(out):
        raise vp.ToolError("GenCli failed:\n" + txt[-3000:])
    g1, g2 = c.rng.sample(ct.good, 2)
    tok = {"g1": g1, "g2": g2, "bad": c.rng.choice(ct.bad)}

    def run(r):
        how = {"how": "missing"} if r["kind"] == "bad" else {}
        return dict(how, e="run", run=r, cwd="", lang="ts", args={"in": {"rel": r["input"] or ".", "tail": ""},
                                                                  "out": {"rel": r["out"] or ".", "tail": ""}})
    res = []
    with open(out) as fh:
        for line in fh:
            h = json.loads(line)
            ops = [{"e": "put", "path": x["p"], "tok": tok[x["t"]]} for x in h["files"]]
            have = {x["p"] for x in h["files"]}
            e = h["edit"]

            def fit(r):
                return dict(r, kind="bad") if r["kind"] == "file" and r["input"] not in have or \
                    r["kind"] == "dir" and r["input"] == "in/s" and not any(p.startswith("in/s/") for p in have) else r
            ops.append(run(fit(h["first"])))
            made_s = any(p.startswith("in/s/") for p in have)
            if e["e"] == "put":
                ops.append({"e": "put", "path": e["path"], "tok": tok[e["tok"]]})
                have.add(e["path"])
            elif e["e"] in ("lock", "seal"):
                ops.append({"e": e["e"], "path": e["path"]})
            elif e["path"] in have:
                ops.append({"e": "del", "path": e["path"]})
                have.discard(e["path"])
            if h["then"]["input"] == "in/s" and made_s:
                ops.append(run(h["then"]))     # the directory is still there
            else:
                ops.append(run(fit(h["then"])))
            res.append(ops)
    return res


def cli(c):
    binary = vp.build_harness("pkh")
    tool = os.path.join(c.work, "packetc")
    shutil.copy(vp.build_cli(), tool)
    os.chmod(c.work, 0o755)
    os.chmod(tool, 0o755)
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["quick"], ["quick", "deep", "deep4", "live"]):
                jobs.append(ex.submit(c.mc, "MCCli", "MCCli_%s.cfg" % f, c.pick(2, 4)))
            for f in ("eager", "lenient"):
                jobs.append(ex.submit(c.mc, "MCCli", "MCCli_%s.cfg" % f, 2, expect_violation="AllOrNothing"))
            ct = Contents(c, binary)
            steps = {"C12": 2, "C13": 1, "C14": 6, "C19": 2}[c.prop]
            hists = [history(c.rng, ct, steps) for _ in range(c.pick({"C12": 2000, "C13": 2400, "C14": 900, "C19": 1800}[c.prop], 6000))]
            hists += model_histories(c, c.pick(60, 6), ct)
            cases = [{"ops": readable(h, ct)} for h in hists]
            data, asts = ct.data, ct.asts
        else:
            cases = [{"ops": x["ops"]} for x in c.only]
            asts = {t: a for x in c.only for t, a in x["asts"].items()}
            data = {t: bytes.fromhex(d) for x in c.only for t, d in x["data"].items()}
        tab = table(binary, data)
        boxes = [Box(c, n) for n in range(vp.CORES)]
        parts = [list(range(k, len(cases), vp.CORES)) for k in range(vp.CORES)]

        def go(k):
            return [(i, record(boxes[k], tool, cases[i]["ops"], data)) for i in parts[k]]

        with ThreadPoolExecutor(vp.CORES) as ex2:
            recs = dict(x for part in ex2.map(go, range(vp.CORES)) for x in part)
        kept = [i for i in range(len(cases)) if recs[i] is not None]
        path = os.path.join(c.work, "table.ndjson")
        why = reasons(binary, data, asts) if c.prop == "C19" else {}
        with open(path, "w") as fh:
            for t, r in tab.items():
                fh.write(json.dumps({"tok": t, "res": r, "why": why.get(t, {})}) + "\n")
        for i in kept:
            toks = {op["tok"] for op in cases[i]["ops"] if op["e"] == "put"}
            cases[i]["data"] = {t: data[t].hex() for t in toks}
            cases[i]["asts"] = {t: asts[t] for t in toks if t in asts}
        c.validate("TraceCli", [cases[i] for i in kept], [recs[i] for i in kept], env={"TABLE": path})
        for j in jobs:
            j.result()
    runs = [e for i in kept for e in recs[i]["events"] if e["e"] == "run"]
    c.notes["closed_directories_and_files"] = sum(1 for i in kept for e in recs[i]["events"] if e["e"] in ("lock", "seal"))
    c.notes["histories"] = len(kept)
    c.notes["histories_left_out"] = len(cases) - len(kept)
    c.notes["tool_runs"] = {"total": len(runs), "status_zero": sum(1 for e in runs if e["zero"]),
                            "dir": sum(1 for e in runs if e["run"]["kind"] == "dir"),
                            "file": sum(1 for e in runs if e["run"]["kind"] == "file"),
                            "bad": sum(1 for e in runs if e["run"]["kind"] == "bad")}
    if c.prop == "C19":
        c.notes["reports"] = {"outputs_named": sum(len(e["said"]) for e in runs), "with_error_text": sum(1 for e in runs if e["err"])}
    for i in kept[:: max(1, len(kept) // 3)]:
        c.sample({"events": [{k: v for k, v in e.items() if k != "files"} for e in recs[i]["events"]][:8],
                  "files_at_the_end": recs[i]["events"][-1].get("files", [])[:8]})
    c.assumptions += ["the tool runs as an unprivileged user inside a scratch directory",
                      "what happens to the other outputs of a run one of whose outputs cannot be written is left open"]
