"""Compiles schemas and runs the generated modules in node."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import vp

NODE_DIR = os.path.join(vp.VERIF, "node")


def compile_all(binary, texts, reps=1):
    """The first outcome of compiling each text."""
    reqs = [{"id": i, "text": t, "reps": reps} for i, t in enumerate(texts)]
    return [r["outcomes"][0] for r in vp.run_harness(binary, reqs)]


def module_text(outcome):
    return outcome["meta"] + "\n" + outcome["body"]


def dead(run):
    """What is recorded of a run which took the process with it."""
    if run["kind"] == "session":
        return [{"events": [{"op": "load", "threw": "used up all memory", "pk": [], "bf": []}]}]
    return [{"events": [{"e": "wbegin", "leaves": run.get("leaves", [])}, {"e": "wend", "threw": "used up all memory"}]}]


def run_modules(c, jobs, timeout=800, shards=None):
    """jobs: [{ts, ast, want, runs}] -> results in the same order."""
    if not jobs:
        return []
    shards = shards or max(1, min(vp.CORES - 1, len(jobs) // 12))
    parts = [list(range(k, len(jobs), shards)) for k in range(shards)]

    def go(k):
        inp = os.path.join(c.work, "jobs-%d-%d.ndjson" % (id(jobs), k))
        out = inp + ".out"
        todo, res, died = list(parts[k]), [], 0
        while todo:
            with open(inp, "w") as fh:
                for i in todo:
                    fh.write(json.dumps(dict(jobs[i], id=i)) + "\n")
            with open(out, "w"):
                pass
            try:
                r = subprocess.run(["node", "--stack-size=4000", "--max-old-space-size=3000", "--experimental-vm-modules", "--no-warnings",
                                    os.path.join(NODE_DIR, "run.js"), inp, out],
                                   capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise vp.ToolError("running the generated modules took too long")
            with open(out) as fh:
                new = [json.loads(l) for l in fh if l.endswith("\n")]
            res += new
            todo = todo[len(new):]
            if r.returncode == 0:
                break
            if not todo or not jobs[todo[0]].get("runs") or "out of memory" not in r.stderr:
                raise vp.ToolError("node failed:\n" + (r.stderr or r.stdout)[-3000:])
            # generated code used up all memory, which is its result
            died += 1
            res.append({"id": todo[0], "decls": {"enums": []}, "runs": [dead(jobs[todo[0]]["runs"][0])]})
            todo = todo[1:]
            if died == 3:
                res += [{"id": i, "decls": {"enums": []}, "runs": []} for i in todo]
                break
        for p in (inp, out):
            os.unlink(p)
        return res

    with ThreadPoolExecutor(shards) as ex:
        res = {r["id"]: r for part in ex.map(go, range(shards)) for r in part}
    if len(res) != len(jobs):
        raise vp.ToolError("node lost results")
    return [res[i] for i in range(len(jobs))]
