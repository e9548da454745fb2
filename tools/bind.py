#!/usr/bin/env python3
"""bind.py [PROPERTY...]: shows that the trace specifications are bound to what
is recorded.

Runs each check (quick tier), then corrupts one recorded value at a time in a
sample of the accepted records, drops, repeats or swaps events, and lets TLC
judge the corrupted records. Prints for each place in the record how many of
the corrupted ones were rejected. A place at 0 is a value the property does not
look at; each of those is explained in DESIGN.md.
"""
import contextlib
import copy
import io
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True

import vp  # noqa: E402
import registry  # noqa: E402

PER_PLACE = 24
SAMPLE = 400


def leaves(x, path=(), name=""):
    """(path, name of the place) of every value and every list of a record."""
    if isinstance(x, dict):
        tag = x.get("e") or x.get("op") or x.get("k") or x.get("n")
        here = name + ("<%s>" % tag if isinstance(tag, str) and len(tag) < 12 else "")
        for k in x:
            yield from leaves(x[k], path + (k,), here + "." + k)
    elif isinstance(x, list):
        yield path, name + "[]"
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,), name + "[]")
    else:
        yield path, name


def corrupt(rng, x):
    """Another value of the same type, or None."""
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, str):
        return str(int(x) + 1) if x.isdigit() and len(x) < 9 else x + "x"
    if isinstance(x, list) and x:
        y = list(x)
        how = rng.choice(["drop", "repeat", "swap"])
        i = rng.randrange(len(y))
        if how == "drop":
            del y[i]
        elif how == "repeat":
            y.insert(i, y[i])
        elif i + 1 < len(y):
            y[i], y[i + 1] = y[i + 1], y[i]
        return y if y != x else None
    return None


def corrupted(rng, record):
    places = {}
    for path, name in leaves(record):
        if path:
            places.setdefault(name, []).append(path)
    for name, paths in places.items():
        path = rng.choice(paths)
        r = copy.deepcopy(record)
        at = r
        for p in path[:-1]:
            at = at[p]
        new = corrupt(rng, at[path[-1]])
        if new is None:
            continue
        at[path[-1]] = new
        yield name, r


def main():
    for prop in sys.argv[1:] or sorted(registry.CHECKS):
        fn, level = registry.CHECKS[prop]
        c = vp.Check(prop, "quick", 1, level)
        rng = random.Random(prop)
        tables, validate = {}, c.validate

        def bound(module, cases, records, env=None, **kw):
            bad = validate(module, cases, records, env=env, **kw)
            gone = {i for i, _ in bad}
            good = [r for i, r in enumerate(records) if i not in gone]
            rng.shuffle(good)
            by = {}
            for r in good[:SAMPLE]:
                for name, x in corrupted(rng, r):
                    if len(by.setdefault(name, [])) < PER_PLACE:
                        by[name].append(x)
            for name, xs in by.items():
                key = (module, name)
                t = tables.setdefault(key, [0, 0, 0])
                before = len(c.rejects)
                try:
                    n = len({i for i, _ in validate(module, xs, xs, env=env, shards=1, **kw)})
                    t[1] += n
                except vp.ToolError:
                    t[2] += len(xs)       # TLC could not even evaluate it
                del c.rejects[before:]
                t[0] += len(xs)
            return bad

        c.validate = bound
        c.mc = lambda *a, **k: None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn(c)
        finally:
            c.close()
        for (module, name), (n, rej, err) in sorted(tables.items()):
            print("%s %-12s %-48s %2d corrupted, %2d rejected%s" % (prop, module, name, n, rej, ", %d not evaluated" % err if err else ""), flush=True)


if __name__ == "__main__":
    main()
