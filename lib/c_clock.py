"""C21: the line every generated module starts with."""
import os
import re
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import c_cli
import gen
import vp

DAY = 86400
ZONES = ["UTC0", "XYZ5", "ABC-13:45", "PQR12", "DST3EDT,M3.2.0,M11.1.0"]


def day_of(y, m=1, d=1):
    y2 = y - (m <= 2)
    era = y2 // 400
    yoe = y2 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def moments(rng, n):
    """Times of all kinds, as seconds since 1970."""
    out = []
    for _ in range(n):
        y = rng.choice([1970, 1999, 2000, 2024, 2026, 2028, 2099, 2100, 2400, rng.randint(1970, 2200), rng.randint(1970, 9999)])
        r = rng.random()
        if r < 0.3:
            d = day_of(y, *rng.choice([(1, 1), (2, 28), (3, 1), (12, 31), (10, 9), (9, 10)]))
        elif r < 0.4:
            d = day_of(y, 2, 28) + 1
        else:
            d = day_of(y) + rng.randrange(365)
        s = rng.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, DAY - 1, rng.randrange(DAY), rng.randrange(DAY)])
        out.append(d * DAY + s)
    return out


def version():
    with open(os.path.join(vp.REPO, "Cargo.toml")) as fh:
        text = fh.read()
    return re.search(r'^version\s*=\s*"([^"]+)"', text[text.index("[package]"):], re.M).group(1)


def split(secs):
    return [{"d": t // DAY, "s": t % DAY} for t in secs]


def make_cases(c):
    rng, cases = c.rng, []
    for _ in range(c.pick(1500, 20000)):
        ms = moments(rng, rng.choice([1, 2, 3, 6]))
        if rng.random() < 0.3:
            ms = [ms[0] + k * rng.choice([0, 1, 60, 3600, DAY]) for k in range(len(ms))]
        runs = []
        for t in ms:
            ast = gen.valid_schema(rng, n_structs=rng.choice([1, 2]), n_enums=rng.choice([0, 1]), codegen=False, cap=20)
            runs.append({"text": gen.render(ast), "thread": rng.random() < 0.3, "now": [t, rng.choice([0, 1, 500000000, 999999999])],
                         "step": rng.choice([[0, 0], [0, 1], [0, 700000000], [1, 0], [DAY, 0]])})
        cases.append({"runs": runs})
    for z in ZONES:
        for _ in range(c.pick(6, 40)):
            texts = [gen.render(gen.valid_schema(rng, n_structs=2, n_enums=1, codegen=False, cap=20)) for _ in range(rng.choice([1, 3]))]
            cases.append({"zone": z, "lang": rng.choice(["C", "C.UTF-8", "de_DE.UTF-8", ""]), "texts": texts})
    return cases


def in_zone(c, tool, how, case):
    """The tool itself, with the clock as it is, in some time zone."""
    with tempfile.TemporaryDirectory(prefix="zone", dir=c.work) as d:
        os.chmod(c.work, 0o755)
        os.chmod(d, 0o755)
        c_cli.give(d)
        os.mkdir(os.path.join(d, "in"))
        for k, t in enumerate(case["texts"]):
            with open(os.path.join(d, "in", "f%d.pkt" % k), "w", newline="") as fh:
                fh.write(t)
        t0 = int(time.time())
        subprocess.run([tool, "ts", "in", "out"], cwd=d, env={"PATH": "/usr/bin:/bin", "TZ": case["zone"], "LANG": case["lang"], "LC_ALL": case["lang"]},
                       **how, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        reads = split(range(t0, int(time.time()) + 1))
        runs = []
        for k in range(len(case["texts"])):
            p = os.path.join(d, "out", "f%d.ts" % k)
            if not os.path.exists(p):
                runs.append({"r": "no output", "reads": reads, "line": "", "heads": 0})
                continue
            with open(p, newline="") as fh:
                lines = fh.read().split("\n")
            runs.append({"r": "ok", "reads": reads, "line": lines[0], "heads": sum("//" in l for l in lines)})
        return runs


def clock(c):
    binary, tool = vp.build_harness("pkclock"), vp.build_cli()
    ver, how = version(), c_cli.as_nobody()
    with ThreadPoolExecutor(3) as ex:
        jobs = []
        if c.only is None:
            for f in c.pick(["quick"], ["quick", "deep"]):
                jobs.append(ex.submit(c.mc, "MCClock", "MCClock_%s.cfg" % f, 2))
            for f in ("once", "load"):
                jobs.append(ex.submit(c.mc, "MCClock", "MCClock_%s.cfg" % f, 1, expect_violation="Fresh"))
            cases = make_cases(c)
        else:
            cases = c.only
        fake = [i for i, x in enumerate(cases) if "runs" in x]
        got = dict(zip(fake, vp.run_harness(binary, [{"id": i, "runs": cases[i]["runs"]} for i in fake])))
        recs = []
        for i, x in enumerate(cases):
            if i in got:
                outs = [{"r": o["r"], "reads": split(o.get("reads", [])), "line": o.get("line", ""), "heads": o.get("heads", 0)}
                        for o in got[i]["outcomes"]]
            else:
                outs = in_zone(c, tool, how, x)
            recs.append({"version": ver, "runs": outs})
        c.validate("TraceClock", cases, recs)
        for j in jobs:
            j.result()
    c.notes["modules"] = sum(len(r["runs"]) for r in recs)
    c.notes["in_time_zones"] = sum(len(x["texts"]) for x in cases if "zone" in x)
    for r in recs[:: max(1, len(recs) // 4)]:
        c.sample({"runs": r["runs"][:3]})
    c.assumptions += ["the clock is the one of the C library; in the harness a stand-in for it says what the driver wants"]
