"""Common machinery of the checks: builds, TLC runs, evidence, verdicts.

Nothing in here judges the code under test. Drivers record what the code did;
TLC decides whether the record is a behaviour of the specification.
"""
import contextlib
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import selectors
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    """The check itself could not do its work (exit status 2)."""


def cargo_env():
    env = dict(os.environ)
    env.update(
        HOME=env.get("HOME") or "/root",
        PATH="/root/.cargo/bin:" + env.get("PATH", ""),
        RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_INCREMENTAL="0",
    )
    env.pop("CARGO_TARGET_DIR", None)
    return env


def tree_hash():
    """Hash of everything the builds read: cargo trusts time stamps, we do not."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
             os.path.join(REPO, "build.rs"), os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml"),
             os.path.join(HARNESS, "Cargo.lock")]
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


@contextlib.contextmanager
def build_lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        yield


def cargo_build(name, manifest, args):
    """Builds below BUILD/<name>; forces a rebuild of packetc if any source changed."""
    target = os.path.join(BUILD, name)
    stamp = target + ".stamp"
    want = tree_hash()
    with build_lock():
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want and os.path.isdir(target):
            for pkg in ("packetc", "pkh"):
                subprocess.run(["cargo", "clean", "--offline", "-p", pkg, "--manifest-path", manifest,
                                "--target-dir", target], env=cargo_env(), capture_output=True, cwd=VERIF)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest,
                            "--target-dir", target] + args, env=cargo_env(), capture_output=True,
                           text=True, cwd=VERIF)
        if r.returncode != 0:
            raise ToolError("cargo build failed:\n" + r.stderr[-4000:])
        with open(stamp, "w") as fh:
            fh.write(want)
    return os.path.join(target, "debug")


def build_harness(bin_name):
    d = cargo_build("harness", os.path.join(HARNESS, "Cargo.toml"), ["--bin", bin_name])
    return os.path.join(d, bin_name)


def build_cli():
    d = cargo_build("cli", os.path.join(REPO, "Cargo.toml"), ["--bin", "packetc"])
    return os.path.join(d, "packetc")


# --------------------------------------------------------------------------
# running the harness


def _run_shard(binary, reqs, timeout, memory):
    """One process per shard; a crash or hang is recorded and the rest resumed."""
    out, todo = [], list(reqs)
    while todo:
        with tempfile.TemporaryFile() as inp:
            for r in todo:
                inp.write(json.dumps(r).encode() + b"\n")
            inp.seek(0)
            p = subprocess.Popen([binary], stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (memory, memory)))
        got, buf, hung = [], [], False
        sel = selectors.DefaultSelector()
        sel.register(p.stdout, selectors.EVENT_READ)
        while True:
            if not sel.select(timeout):
                hung = True
                p.kill()
                break
            chunk = os.read(p.stdout.fileno(), 1 << 20)
            if not chunk:
                break
            if b"\n" not in chunk:
                buf.append(chunk)
                continue
            *lines, rest = (b"".join(buf) + chunk).split(b"\n")
            buf = [rest]
            got += [json.loads(l) for l in lines if l]
        sel.close()
        p.stdout.close()
        rc = p.wait()
        out += got
        if len(got) < len(todo):
            lost = todo[len(got)]
            what = {"r": "hang"} if hung else {"r": "abort", "msg": "status %d" % rc}
            out.append({"id": lost["id"], "parse": what, "outcomes": [dict(what, count=1)]})
            todo = todo[len(got) + 1:]
        else:
            todo = []
    return out


def run_harness(binary, reqs, timeout=60, shards=CORES, memory=6 << 30):
    reqs = list(reqs)
    parts = [reqs[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        res = [r for part in ex.map(lambda p: _run_shard(binary, p, timeout, memory), parts) for r in part]
    by = {r["id"]: r for r in res}
    if len(by) != len(reqs):
        raise ToolError("harness lost answers: %d of %d" % (len(by), len(reqs)))
    return [by[r["id"]] for r in reqs]


# --------------------------------------------------------------------------
# TLC

STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def tlc(module, cfg, workdir, env=None, workers=1, timeout=600, heap="3g", extra=()):
    """Runs TLC on spec/<module>.tla. Returns (returncode, output, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra,
           module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = STATES.findall(r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, r.stdout + r.stderr, gen, dist


class Check:
    def __init__(self, prop, tier, seed, level, only=None):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.only = only                      # replay: list of cases
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.rejects = []                     # (case, reason)
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model checking of the specification itself
    def mc(self, module, cfg, workers=2, timeout=3000, heap="4g", expect_violation=None, env=None):
        rc, out, gen, dist = tlc(module, cfg, self.work, workers=workers, timeout=timeout, heap=heap, env=env)
        if expect_violation:
            if "Invariant %s is violated" % expect_violation not in out:
                raise ToolError("%s %s: expected a violation of %s\n%s"
                                % (module, cfg, expect_violation, out[-3000:]))
        elif rc != 0 or "No error has been found" not in out:
            raise ToolError("model checking %s with %s failed:\n%s" % (module, cfg, out[-4000:]))
        with self.lock:
            if not expect_violation:
                self.states += dist
                self.transitions += gen
            self.notes.setdefault("model", {})[cfg.replace(".cfg", "")] = {"generated": gen, "distinct": dist}
        return out

    # -- validation of recorded behaviours
    def validate(self, module, cases, records, env=None, shards=None, timeout=1500, heap="3g", extra_files=None):
        """records[i] is what TLC sees of cases[i]. Appends rejections to self.rejects."""
        if not records:
            return []
        if shards is None:
            shards = max(1, min(CORES - 1, len(records) // 50))
        jobs = []
        for k in range(shards):
            idx = list(range(k, len(records), shards))
            path = os.path.join(self.work, "%s-%s-%d.ndjson" % (module, next(tempfile._get_candidate_names()), k))
            with open(path, "w") as fh:
                for i in idx:
                    fh.write(json.dumps(dict(records[i], id=str(i))) + "\n")
            jobs.append((path, len(idx)))

        def go(job):
            path, n = job
            e = {"TRACE": path, "PROP": self.prop, **(env or {})}
            rc, out, gen, dist = tlc(module, module + ".cfg", self.work, env=e, timeout=timeout, heap=heap)
            m = re.findall(r'"VALIDATED (\d+) OF (\d+)"', out)
            if rc != 0 or not m or int(m[-1][1]) != n:
                raise ToolError("trace validation with %s did not finish (rc %d):\n%s" % (module, rc, out[-4000:]))
            rej = re.findall(r'"REJECTED (\d+) (.*)"', out)
            if int(m[-1][0]) != n - len({a for a, _ in rej}):
                raise ToolError("%s: counts disagree\n%s" % (module, out[-2000:]))
            return int(m[-1][0]), rej, gen, dist

        bad = []
        with ThreadPoolExecutor(len(jobs)) as ex:
            for acc, rej, gen, dist in ex.map(go, jobs):
                with self.lock:
                    self.traces += acc
                    self.states += dist
                    self.transitions += gen
                bad += [(int(i), why.replace('\\"', '"')) for i, why in rej]
        bad.sort()
        for i, why in bad:
            self.rejects.append((cases[i], why))
        return bad

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    # -- verdict
    def finish(self, known=()):
        """known: list of (finding text) that were reproduced and are listed."""
        os.makedirs(EVIDENCE, exist_ok=True)
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces,
                    "samples": self.samples[:6]}
        coverage.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2)}
        replays = []
        if self.rejects:
            rdir = os.path.join(EVIDENCE, "replay")
            os.makedirs(rdir, exist_ok=True)
            for n, (case, why) in enumerate(self.rejects[:20]):
                path = os.path.join(rdir, "%s-%d.json" % (self.prop, n))
                with open(path, "w") as fh:
                    json.dump({"property": self.prop, "seed": self.seed, "why": why, "case": case}, fh, indent=1)
                replays.append((path, why))
            coverage["rejected"] = [{"replay": p, "why": w} for p, w in replays]
        ev["violations"] = len(self.rejects)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for p, w in replays[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + w[:600])
        if len(self.rejects) > 5:
            print("  ... %d rejected in total" % len(self.rejects))
        if not self.rejects:
            print("%s %s: held; states=%d transitions=%d traces=%d wall=%.1fs"
                  % (self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.rejects else 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
