"""C20: runs of the tool which overlap with each other and with edits.

Some inputs are pipes: the tool stops when it opens one and goes on when it is
fed, so the driver decides how the runs interleave. Only one run moves at a
time. A pipe which was fed becomes an ordinary file.
"""
import contextlib
import json
import os
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import c_cli
import vp

WAIT = 30.0
NAMES = ["a", "b", "c", "a.b", "sp ace"]
DIRS = ["", "s", "s/t", "d.pkt"]


class Run:
    """One run of the tool, moved from pipe to pipe."""

    def __init__(self, box, tool, n, job, pipes):
        self.box, self.n, self.pipes, self.fd = box, n, list(pipes), None
        job = job["run"]
        self.p = subprocess.Popen([tool, "ts", job["input"], job["out"] or "."], cwd=box.top, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **box.how,
                                  env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"})

    def advance(self):
        """To the next pipe it opens, or to the end (None)."""
        end = time.time() + WAIT
        while time.time() < end:
            ended = self.p.poll() is not None
            for q in self.pipes:
                with contextlib.suppress(OSError):
                    self.fd = os.open(self.box.path(q), os.O_WRONLY | os.O_NONBLOCK)
                    if ended:             # what was opened is nobody's
                        os.close(self.fd)
                        continue
                    self.at = q
                    return q
            if ended:
                return None
            time.sleep(0.0005)
        self.p.kill()
        self.p.wait()
        return None

    def feed(self, data):
        """From now on the pipe is a file of that content."""
        spare = os.path.join(self.box.root, "spare")
        with open(spare, "wb") as fh:
            fh.write(data)
        os.chmod(spare, 0o644)
        c_cli.give(spare)
        os.rename(spare, self.box.path(self.at))
        self.pipes.remove(self.at)
        os.set_blocking(self.fd, True)
        with contextlib.suppress(BrokenPipeError):
            os.write(self.fd, data)
        os.close(self.fd)
        self.fd = None


def pick_files(rng, ct, top, bad):
    """Input files and pipes below a directory."""
    files, pipes = {}, []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        p = ("%s/%s/%s.pkt" % (top, rng.choice(DIRS), rng.choice(NAMES))).replace("//", "/")
        files[p] = rng.choice(ct.bad if rng.random() < bad else ct.good)
    files = c_cli.consistent(files)
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = ("%s/%s/%s.pkt" % (top, rng.choice(DIRS), rng.choice(["p", "q", "r"]))).replace("//", "/")
        if len(c_cli.consistent(dict(files, **{p: ""}))) == len(set(files) | {p}):
            files.pop(p, None)
            if p not in pipes:
                pipes.append(p)
    return files, pipes


def plan(rng, ct):
    """Everything a history needs; the driver takes from it as it goes."""
    bad = rng.choice([0, 0, 0, 0.1])
    runs, files, pipes = [], {}, {}
    for n in range(rng.choice([1, 1, 2, 2, 3])):
        top = "in%d" % n
        fs, ps = pick_files(rng, ct, top, bad)
        files.update(fs)
        pipes[str(n)] = ps
        job = {"kind": "dir", "input": top, "out": rng.choice(["out", "out", "out", "o/p", top])}
        if rng.random() < 0.15:
            job = {"kind": "file", "input": ps[0] if ps else sorted(fs)[0], "out": job["out"]}
        runs.append({"run": job})
    if rng.random() < 0.5:
        files["out/other.txt"] = rng.choice(ct.bad)
    if rng.random() < 0.4:
        files["out/a.ts"] = rng.choice(ct.bad)
    # choices: what to do whenever a run waits
    steps = []
    for _ in range(24):
        r = rng.random()
        n = rng.randrange(len(runs))
        if r < 0.35:
            steps.append({"do": "edit", "path": rng.choice(sorted(files)), "tok": rng.choice(ct.bad if rng.random() < 0.4 else ct.good)})
        elif r < 0.42:
            steps.append({"do": "add", "path": ("in%d/%s/%s.pkt" % (n, rng.choice(DIRS), rng.choice(["x", "y"]))).replace("//", "/"),
                          "tok": rng.choice(ct.good if rng.random() < 0.8 else ct.bad)})
        elif r < 0.5:
            steps.append({"do": "del", "path": rng.choice(sorted(files))})
        else:
            steps.append({"do": "move", "n": n, "tok": rng.choice(ct.bad if rng.random() < 0.12 else ct.good)})
    return {"runs": runs, "files": files, "pipes": pipes, "steps": steps,
            "feeds": [rng.choice(ct.good) for _ in range(30)], "busy": rng.random() < 0.8}


def record(box, tool, pl, data):
    box.fresh()
    evs, live = [], {}
    try:
        for p, t in pl["files"].items():
            box.put(p, data[t])
            evs.append({"e": "put", "path": p, "tok": t})
        for ps in pl["pipes"].values():
            for p in ps:
                box.put(p, b"")
                os.unlink(box.path(p))
                os.mkfifo(box.path(p), 0o644)
                c_cli.give(box.path(p))
                evs.append({"e": "put", "path": p, "tok": "PIPE"})
        for n in range(len(pl["runs"])):
            os.makedirs(box.path("in%d" % n), exist_ok=True)
            c_cli.give(box.path("in%d" % n))

        def start(n):
            r = Run(box, tool, n, pl["runs"][n], pl["pipes"][str(n)])
            live[n] = r
            evs.append({"e": "start", "r": n, "run": pl["runs"][n]["run"]})
            arrive(n)

        def arrive(n):
            r = live[n]
            q = r.advance()
            if q is None:
                del live[n]
                evs.append({"e": "end", "r": n, "zero": r.p.returncode == 0, "files": snapshot(box)})
            else:
                evs.append({"e": "at", "r": n, "path": q, "files": snapshot(box)})

        def move(n, tok):
            evs.append({"e": "feed", "r": n, "path": live[n].at, "tok": tok})
            live[n].feed(data[tok])
            arrive(n)

        todo = list(range(len(pl["runs"])))
        feeds = list(pl["feeds"])
        for s in pl["steps"]:
            if not todo and not live:
                break
            if s["do"] == "move":
                if s["n"] in live:
                    move(s["n"], s["tok"])
                elif todo:
                    start(todo.pop(0))
            elif not pl["busy"]:
                continue
            elif s["do"] == "del":
                if os.path.isfile(box.path(s["path"])):
                    os.unlink(box.path(s["path"]))
                    evs.append({"e": "del", "path": s["path"]})
            else:
                box.put(s["path"], data[s["tok"]])
                evs.append({"e": "put", "path": s["path"], "tok": s["tok"]})
        while todo or live:
            if live:
                n = sorted(live)[0]
                move(n, feeds.pop() if feeds else pl["feeds"][0])
            else:
                start(todo.pop(0))
        return {"events": evs}
    except OSError:
        return None
    finally:
        for r in live.values():
            r.p.kill()
            r.p.wait()
            if r.fd is not None:
                os.close(r.fd)


def snapshot(box):
    out = []
    for d, _, fs in os.walk(box.top):
        for f in fs:
            full = os.path.join(d, f)
            if os.path.isfile(full):
                with open(full, "rb") as fh:
                    t = c_cli.token(fh.read())
            else:
                t = "PIPE"
            out.append({"p": os.path.relpath(full, box.top), "t": t})
    return sorted(out, key=lambda x: x["p"])


def overlap(c):
    binary = vp.build_harness("pkh")
    tool = os.path.join(c.work, "packetc")
    shutil.copy(vp.build_cli(), tool)
    os.chmod(c.work, 0o755)
    os.chmod(tool, 0o755)
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["quick"], ["quick", "deep", "live"]):
                jobs.append(ex.submit(c.mc, "MCOverlap", "MCOverlap_%s.cfg" % f, c.pick(2, 4)))
            for f in ("eager", "twice", "temp"):
                jobs.append(ex.submit(c.mc, "MCOverlap", "MCOverlap_%s.cfg" % f, 2, expect_violation="Overlapping"))
            ct = c_cli.Contents(c, binary)
            for k in (ct.good, ct.bad):      # what a pipe cannot deny
                with contextlib.suppress(ValueError):
                    k.remove(c_cli.token(c_cli.LOCKED))
            cases = [plan(c.rng, ct) for _ in range(c.pick(1500, 8000))]
            data = ct.data
        else:
            cases = c.only
            data = {t: bytes.fromhex(d) for x in c.only for t, d in x["data"].items()}
        tab = c_cli.table(binary, data)
        boxes = [c_cli.Box(c, n) for n in range(vp.CORES)]
        parts = [list(range(k, len(cases), vp.CORES)) for k in range(vp.CORES)]
        with ThreadPoolExecutor(vp.CORES) as ex2:
            recs = dict(x for part in ex2.map(lambda k: [(i, record(boxes[k], tool, cases[i], data)) for i in parts[k]],
                                              range(vp.CORES)) for x in part)
        kept = [i for i in range(len(cases)) if recs[i] is not None]
        path = os.path.join(c.work, "table.ndjson")
        with open(path, "w") as fh:
            for t, r in tab.items():
                fh.write(json.dumps({"tok": t, "res": r}) + "\n")
        for i in kept:
            x = cases[i]
            toks = set(x["files"].values()) | {s["tok"] for s in x["steps"] if "tok" in s} | set(x["feeds"])
            x["data"] = {t: data[t].hex() for t in toks}
        c.validate("TraceOverlap", [cases[i] for i in kept], [recs[i] for i in kept], env={"TABLE": path})
        for j in jobs:
            j.result()
    evs = [e for i in kept for e in recs[i]["events"]]
    c.notes["histories"] = len(kept)
    c.notes["histories_left_out"] = len(cases) - len(kept)
    c.notes["events"] = {k: sum(1 for e in evs if e["e"] == k) for k in ("put", "del", "start", "at", "feed", "end")}
    c.notes["status_zero"] = sum(1 for e in evs if e["e"] == "end" and e["zero"])
    c.notes["overlapping_starts"] = sum(overlaps(recs[i]["events"]) for i in kept)
    c.notes["edits_during_runs"] = sum(edits(recs[i]["events"]) for i in kept)
    for i in kept[:: max(1, len(kept) // 3)]:
        c.sample({"events": [{k: v for k, v in e.items() if k != "files"} for e in recs[i]["events"]][:16]})
    c.assumptions += ["the tool runs as an unprivileged user inside a scratch directory",
                      "the driver decides the schedule at pipes among the inputs; between two of them one run moves alone"]


def overlaps(evs):
    n = busy = 0
    for e in evs:
        if e["e"] == "start":
            n += busy > 0
            busy += 1
        busy -= e["e"] == "end"
    return n


def edits(evs):
    n = busy = 0
    for e in evs:
        busy += (e["e"] == "start") - (e["e"] == "end")
        n += busy > 0 and e["e"] in ("put", "del")
    return n
