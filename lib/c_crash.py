"""C22: runs of the tool which are interrupted, and the runs after them.

A run is stopped at an input (a pipe it waits at), at an output (a pipe too,
closed after some bytes), by a limit on the size of files, or at any time. The
tool runs as an unprivileged user inside a scratch directory.
"""
import contextlib
import fcntl
import json
import os
import resource
import shutil
import signal
import stat
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import c_cli
import c_overlap
import vp

NAMES = ["a", "b", "c", "a.b", "sp ace", "d"]
DIRS = ["", "", "s", "s/t", "d.pkt"]
LIMITS = [0, 1, 3, 20, 50, 70, 100, 300, 1000, 4096, 8192, 20000, 65536, 100000]
WAIT = 30.0


def output_of(run, p):
    rel = os.path.relpath(p, run["input"]) if run["kind"] == "dir" else os.path.basename(p)
    return os.path.normpath(os.path.join(run["out"], os.path.splitext(rel)[0] + ".ts"))


def inputs(run, live):
    if run["kind"] == "file":
        return [run["input"]] if run["input"] in live else []
    return sorted(p for p in live if p.startswith(run["input"] + "/") and p.endswith(".pkt"))


def plan(rng, ct):
    bad = rng.choice([0, 0, 0, 0, 0.15])
    big = rng.choice([0, 0.2, 0.5])

    def content():
        if rng.random() < bad:
            return rng.choice(ct.bad)
        return rng.choice(ct.big if rng.random() < big else ct.good)

    live = {}
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        live[("in/%s/%s.pkt" % (rng.choice(DIRS), rng.choice(NAMES))).replace("//", "/")] = content()
    if rng.random() < 0.6:
        live["out/other.txt"] = rng.choice(ct.bad)
    if rng.random() < 0.4:
        live["out/" + rng.choice(["a.ts", "b.ts", "s/a.ts", "old.ts"])] = rng.choice(ct.bad + ct.good)
    live = c_cli.consistent(live)
    ops = [{"e": "put", "path": p, "tok": t} for p, t in live.items()]
    src = sorted(p for p in live if p.endswith(".pkt"))

    def job():
        out = rng.choice(["out", "out", "out", "o/p", "in"])
        if src and rng.random() < 0.15:
            return {"kind": "file", "input": rng.choice(src), "out": out}
        return {"kind": "dir", "input": "in", "out": out}

    def edit():
        for _ in range(rng.choice([0, 0, 1, 2])):
            p = rng.choice(src)
            t = content()
            if live.get(p) in ct.twin and rng.random() < 0.5:
                t = ct.twin[live[p]]
            live[p] = t
            ops.append({"e": "put", "path": p, "tok": t})
        if len(src) > 1 and rng.random() < 0.1:
            p = rng.choice(src)
            if live.pop(p, None):
                ops.append({"e": "del", "path": p})

    run = job()
    if rng.random() < 0.6:
        ops.append({"e": "run", "run": run})
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            edit()
            if rng.random() < 0.15:
                run = job()
            how = rng.choice(["read", "read", "pipe", "pipe", "pipe", "limit", "limit", "limit", "time"])
            ops.append({"e": "cut", "run": run, "how": how, "n": rng.randrange(6), "limit": rng.choice(LIMITS),
                        "bytes": rng.choice([-1, 0, 1, 40, 200, 4096, 9000, 30000, 10 ** 9]), "ignore": rng.random() < 0.5,
                        "line": rng.choice([None, None, 1, 2, 5, rng.randrange(1, 60)]),
                        "after": rng.random() * 0.005})
        edit()
        if rng.random() < 0.1:
            run = job()
        ops.append({"e": "run", "run": run})
    return {"ops": ops}


def start(box, tool, run, prepare=None):
    return subprocess.Popen([tool, "ts", run["input"], run["out"]], cwd=box.top, stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=prepare, **box.how,
                            env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"})


def kill(p):
    """How it ended: by itself just before, or not."""
    rc = p.poll()
    if rc is None:
        p.kill()
        rc = p.wait()
    return "zero" if rc == 0 else "killed" if rc < 0 else "nonzero"


def sleeps(p):
    with contextlib.suppress(OSError, IndexError), open("/proc/%d/stat" % p.pid) as fh:
        return fh.read().rsplit(")", 1)[1].split()[0] == "S"
    return False


def waits(p):
    """Lets it go until it sleeps for a while, or ends."""
    end, still = time.time() + WAIT, 0
    while still < 8 and time.time() < end and p.poll() is None:
        still = still + 1 if sleeps(p) else 0
        time.sleep(0.001)


def cut_read(box, tool, op, live, data):
    """Stopped at one of the inputs; those before are fed."""
    src = inputs(op["run"], live)
    if not src:
        return None
    for p in src:
        os.unlink(box.path(p))
        os.mkfifo(box.path(p), 0o644)
        c_cli.give(box.path(p))
    r = c_overlap.Run(box, tool, 0, op, src)
    ended = None
    try:
        for _ in range(min(op["n"], len(src) - 1)):
            if r.advance() is None:
                return None                # never came to a pipe, or failed
            r.feed(data[live[r.at]])
        if r.advance() is None:
            return None
        ended = kill(r.p)
    finally:
        r.p.kill()
        r.p.wait()
        if r.fd is not None:
            os.close(r.fd)
        for p in r.pipes:
            os.unlink(box.path(p))
            box.put(p, data[live[p]])
    return ended


def cut_pipe(box, tool, op, live):
    """Stopped at one of the outputs, behind some of its bytes."""
    src = inputs(op["run"], live)
    if not src:
        return None
    q = output_of(op["run"], src[op["n"] % len(src)])
    full, old = box.path(q), None
    if os.path.exists(full):
        with open(full, "rb") as fh:
            old = fh.read()
    box.put(q, b"")
    os.unlink(full)
    os.mkfifo(full, 0o644)
    c_cli.give(full)
    got, fd = b"", None
    if op["bytes"] >= 0:
        fd = os.open(full, os.O_RDONLY | os.O_NONBLOCK)
    p = start(box, tool, op["run"])
    try:
        if fd is None:
            waits(p)
        else:
            with contextlib.suppress(OSError):
                fcntl.fcntl(fd, 1031, 4096)              # F_SETPIPE_SZ
            end, still = time.time() + WAIT, 0
            while len(got) < op["bytes"] and time.time() < end and still < 40:
                over, more = p.poll() is not None, b""
                with contextlib.suppress(BlockingIOError):
                    more = os.read(fd, max(1, min(4096, op["bytes"] - len(got))))
                got += more
                if over:
                    break
                if not more:               # it may wait for something else
                    still = still + 1 if sleeps(p) else 0
                    time.sleep(0.0005)
            if op["bytes"] < 10 ** 9:
                waits(p)
        ended = kill(p)
        while fd is not None:
            try:
                more = os.read(fd, 65536)
            except BlockingIOError:
                break
            if not more:
                break
            got += more
    finally:
        kill(p)
        if fd is not None:
            os.close(fd)
    if os.path.lexists(full) and stat.S_ISFIFO(os.lstat(full).st_mode):
        os.unlink(full)
        if got or old is not None:
            box.put(q, got or old)
    return ended


def cut_limit(box, tool, op, live, tab, bodies, head):
    """Not allowed to write files beyond some size: killed, or told so. Some
    limits are at the end of a line of one of the outputs."""
    limit, src = op["limit"], [p for p in inputs(op["run"], live) if tab[live[p]] in bodies]
    if op["line"] and src:
        body = bodies[tab[live[src[op["n"] % len(src)]]]]
        limit = head + sum(len(l) for l in body.splitlines(True)[:op["line"]])

    def prepare():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if op["ignore"] else signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    p = start(box, tool, op["run"], prepare)
    try:
        p.wait(60)
    except subprocess.TimeoutExpired:
        pass
    return kill(p)


def cut_time(box, tool, op):
    p = start(box, tool, op["run"])
    time.sleep(op["after"])
    return kill(p)


def snapshot(box, cands, bodies):
    out = []
    for d, _, fs in os.walk(box.top):
        for f in fs:
            full = os.path.join(d, f)
            with open(full, "rb") as fh:
                b = fh.read()
            t = c_cli.token(b)
            of = []
            if full.endswith(".ts") and t not in cands:
                rest = b.split(b"\n", 1)[1] if b.startswith(b"//") and b"\n" in b else None
                of = [c for c in cands if bodies[c].startswith(b) or (rest is not None and bodies[c].startswith(rest))
                      or (rest is None and b.startswith(b"/"))]
            out.append({"p": os.path.relpath(full, box.top), "t": t, "of": of})
    return sorted(out, key=lambda x: x["p"])


def record(box, tool, case, data, tab, bodies, head):
    box.fresh()
    evs, live = [], {}
    for op in case["ops"]:
        cands = sorted({tab[t] for t in live.values() if tab.get(t, "FAILS") != "FAILS"})
        if op["e"] == "put":
            box.put(op["path"], data[op["tok"]])
            live[op["path"]] = op["tok"]
            evs.append(op)
        elif op["e"] == "del":
            os.unlink(box.path(op["path"]))
            del live[op["path"]]
            evs.append(op)
        elif op["e"] == "run":
            p = start(box, tool, op["run"])
            try:
                p.wait(60)
            except subprocess.TimeoutExpired:
                kill(p)
            evs.append({"e": "run", "run": op["run"], "zero": p.returncode == 0, "files": snapshot(box, cands, bodies)})
        else:
            if op["how"] == "read":
                ended = cut_read(box, tool, op, live, data)
            elif op["how"] == "pipe":
                ended = cut_pipe(box, tool, op, live)
            elif op["how"] == "limit":
                ended = cut_limit(box, tool, op, live, tab, bodies, head)
            else:
                ended = cut_time(box, tool, op)
            if ended is None:
                return None
            evs.append({"e": "cut", "run": op["run"], "by": op["how"], "how": "limit" if op["how"] in ("limit", "pipe") else "kill",
                        "ended": ended, "files": snapshot(box, cands, bodies)})
    return {"events": evs}


def results(binary, data):
    """What compiling gives: tokens, bodies by token, and the length of what is
    in front of them."""
    tab, bodies, keys, reqs, head = {}, {}, [], [], 0
    for t, d in data.items():
        tab[t] = "FAILS"
        with contextlib.suppress(UnicodeDecodeError):
            reqs.append({"id": len(reqs), "text": d.decode("utf-8"), "reps": 1})
            keys.append(t)
    for t, r in zip(keys, vp.run_harness(binary, reqs)):
        o = r["outcomes"][0]
        if o["r"] == "ok":
            tab[t] = c_cli.token(((o["meta"] + "\n") if o["meta"] else "").encode() + o["body"].encode())
            bodies[tab[t]] = o["body"].encode()
            head = len(o["meta"]) + 1 if o["meta"] else 0
    return tab, bodies, head


def crash(c):
    binary = vp.build_harness("pkh")
    tool = os.path.join(c.work, "packetc")
    shutil.copy(vp.build_cli(), tool)
    os.chmod(c.work, 0o755)
    os.chmod(tool, 0o755)
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            jobs.append(ex.submit(c.mc, "MCCrash", c.pick("MCCrash_quick.cfg", "MCCrash_deep.cfg"), c.pick(2, 4)))
            for f in ("append", "skip", "marker", "clean"):
                jobs.append(ex.submit(c.mc, "MCCrash", "MCCrash_%s.cfg" % f, 2, expect_violation="Survives"))
            ct = c_cli.Contents(c, binary)
            for k in (ct.good, ct.bad):
                with contextlib.suppress(ValueError):
                    k.remove(c_cli.token(c_cli.LOCKED))
            data = {t: d for t, d in ct.data.items() if d != c_cli.LOCKED}
            tab, bodies, head = results(binary, data)
            ct.big = sorted(ct.good, key=lambda t: len(bodies.get(tab[t], b"")))[-8:]
            cases = [plan(c.rng, ct) for _ in range(c.pick(1000, 6000))]
        else:
            cases = c.only
            data = {t: bytes.fromhex(d) for x in c.only for t, d in x["data"].items()}
            tab, bodies, head = results(binary, data)
        boxes = [c_cli.Box(c, n) for n in range(vp.CORES)]
        parts = [list(range(k, len(cases), vp.CORES)) for k in range(vp.CORES)]

        def go(k):
            return [(i, record(boxes[k], tool, cases[i], data, tab, bodies, head)) for i in parts[k]]
        with ThreadPoolExecutor(vp.CORES) as ex2:
            recs = dict(x for part in ex2.map(go, range(vp.CORES)) for x in part)
        kept = [i for i in range(len(cases)) if recs[i] is not None]
        path = os.path.join(c.work, "table.ndjson")
        with open(path, "w") as fh:
            for t, r in tab.items():
                fh.write(json.dumps({"tok": t, "res": r}) + "\n")
        for i in kept:
            cases[i]["data"] = {o["tok"]: data[o["tok"]].hex() for o in cases[i]["ops"] if "tok" in o}
        c.validate("TraceCrash", [cases[i] for i in kept], [recs[i] for i in kept], env={"TABLE": path})
        for j in jobs:
            j.result()
    cuts = [e for i in kept for e in recs[i]["events"] if e["e"] == "cut"]
    c.notes["histories"] = len(kept)
    c.notes["histories_left_out"] = len(cases) - len(kept)
    c.notes["interruptions"] = {b: {x: sum(1 for e in cuts if e["by"] == b and e["ended"] == x) for x in ("killed", "zero", "nonzero")}
                                for b in ("read", "pipe", "limit", "time")}
    c.notes["left_a_beginning"] = sum(1 for e in cuts if any(f["of"] for f in e["files"]))
    c.notes["whole_runs"] = sum(1 for i in kept for e in recs[i]["events"] if e["e"] == "run")
    for i in kept[:: max(1, len(kept) // 3)]:
        c.sample({"events": [{k: v for k, v in e.items() if k != "files"} for e in recs[i]["events"]][:16]})
    c.assumptions += ["the tool runs as an unprivileged user inside a scratch directory",
                      "where a run stops is decided by pipes, by limits on file sizes and by time; the loss of power is not tried"]
