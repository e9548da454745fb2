"""Values of a schema's exported type, as leaves (see spec/Wire.tla)."""
import math
import struct

INTS = {"uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, 2**32 - 1),
        "int8": (-128, 127), "int16": (-32768, 32767), "int32": (-(2**31), 2**31 - 1)}


def js_num(x):
    """The text JavaScript gives a number."""
    if isinstance(x, int):
        return str(x)
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    if x == 0:
        return "-0" if math.copysign(1, x) < 0 else "0"
    sign, x = ("-", -x) if x < 0 else ("", x)
    mant, exp = ("%s" % repr(x)).lower().partition("e")[::2]
    whole, _, frac = mant.partition(".")
    frac = "" if frac == "0" else frac
    digits = (whole + frac).lstrip("0")
    point = len(whole) + (int(exp) if exp else 0) - (len(whole + frac) - len((whole + frac).lstrip("0")))
    digits = digits.rstrip("0")
    k, n = len(digits), point
    if k <= n <= 21:
        s = digits + "0" * (n - k)
    elif 0 < n <= 21:
        s = digits[:n] + "." + digits[n:]
    elif -6 < n <= 0:
        s = "0." + "0" * -n + digits
    else:
        e = n - 1
        s = digits[0] + ("." + digits[1:] if k > 1 else "") + "e" + ("+" if e >= 0 else "-") + str(abs(e))
    return sign + s


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, f32(0.1), f32(3.14159), f32(1e30), f32(-1e-30), 16777216.0, 2.0**-149,
          f32(3.4028234e38), math.inf, -math.inf, math.nan, 255.0, 256.0, 65536.0]


def number(rng, ty):
    if ty == "float":
        return js_num(rng.choice(FLOATS) if rng.random() < 0.6 else f32(rng.uniform(-1e6, 1e6)))
    lo, hi = INTS[ty]
    r = rng.random()
    if r < 0.25:
        return "0"
    if r < 0.6:
        return str(rng.choice([lo, hi, lo + 1, hi - 1, 1, hi // 2, hi // 2 + 1, 127, 7]))
    return str(rng.randint(lo, hi))


CHARS = "".join(chr(i) for i in range(32, 127))


def text(rng, long):
    r = rng.random()
    n = 0 if r < 0.25 else rng.randint(1, 8) if r < 0.9 else rng.choice([255, 256, 257, 300] if long else [20])
    if rng.random() < 0.1:
        return rng.choice(["0", "null", "undefined", "false", "#", "?", "!", " ", "NaN"])
    return "".join(rng.choice(CHARS) for _ in range(n))


def env_of(ast):
    return {d["name"]: d for d in ast if d["n"] != "export"}


def root_of(ast):
    return [d["name"] for d in ast if d["n"] == "export"][0]


def leaves(rng, ast, style="mixed", budget=160, long_arrays=False):
    """Leaves of a random value. style: mixed, empty (all absent), full (all
    present), zero (present but falsy)."""
    env, out = env_of(ast), []
    state = {"left": budget, "long": 1 if long_arrays else 0}

    def put(s, n=0):
        out.append({"s": s, "n": n})
        state["left"] -= 1

    def one(ty):
        if ty == "string":
            s = "" if style == "zero" else text(rng, long_arrays)
            put(s, len(s))
        elif ty in INTS or ty == "float":
            put("0" if style == "zero" else number(rng, ty))
        elif env[ty]["n"] == "enum":
            v = env[ty]["variants"]
            put(rng.choice([v[0], v[-1], rng.choice(v), rng.choice(v)]))
        else:
            for f in env[ty]["fields"]:
                field(f)

    def field(f):
        if f["arr"]:
            if style == "empty" or state["left"] <= 0:
                n = 0
            else:
                n = rng.choice([0, 1, 1, 2, 2, 3, 5])
                if state["long"] and (f["ty"] not in env or env[f["ty"]]["n"] == "enum"):
                    state["long"] -= 1
                    n = rng.choice([255, 256, 257, 300])
            put("#", n)
            for _ in range(n):
                one(f["ty"])
        elif f["opt"]:
            n = 0 if style == "empty" or state["left"] <= 0 else 1 if style in ("full", "zero") else rng.randint(0, 1)
            put("?", n)
            if n:
                one(f["ty"])
        else:
            one(f["ty"])

    one(root_of(ast))
    return out
