"""Generators of schemas and their renderings. Inputs only: what must happen
with them is decided by the specification."""
import itertools

BUILTINS = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"]
RESERVED = BUILTINS + ["enum", "struct"]

# Names special to TypeScript or JavaScript. The generated module cannot use
# them everywhere, which is a known finding; generators keep them out of the
# places concerned.
TS_RESERVED = """break case catch class const continue debugger default delete do else enum export extends false
finally for function if import in instanceof new null return super switch this throw true try typeof var void
while with implements interface let package private protected public static yield await async arguments eval""".split()
TS_TYPE_NAMES = """any unknown never number bigint boolean string symbol object void undefined null type
Reader Writer Object Array ArrayBuffer NaN Infinity""".split()
EXPORT_FIELD_SPECIAL = ["name", "length", "prototype", "caller", "arguments", "write", "__proto__", "constructor"]
# not usable as the name of any field
FIELD_SPECIAL = ["__proto__"]

LETTERS = "abcdefghijklmnopqrstuvwxyz"
TRICKY_FIELDS = ["a", "b", "c", "x", "y", "a_b", "b_c", "a_b_c", "a_", "_a", "_", "__", "item", "index", "len", "temp",
                 "a_item", "a_len", "a_index", "a_temp", "item_a", "output", "output_a", "this_a", "reader", "writer",
                 "buffer", "data", "failed", "read", "finish", "value", "val", "uint8x", "string_", "enumerate", "structs",
                 "floaty", "int", "int8_", "uint", "exported", "export_", "X", "A1", "a1", "a10", "x0", "x_0", "toString",
                 "valueOf", "hasOwnProperty", "T", "Type", "f_g_h", "undefined_", "null_", "id", "key", "size", "count"]
TRICKY_TYPES = ["T", "Test", "Pos", "Position", "Value", "Flag", "A", "B", "C", "A_B", "a", "b", "x", "t1", "T10", "T1", "T_",
                "_T", "uint8_t", "Uint8", "UINT8", "uint64", "stringy", "Enum", "Struct", "enumX", "structure", "exporter",
                "exports", "Float", "Item", "item", "output_t", "reader_t", "Export", "Packet", "Data", "Z9", "aa", "aA"]
# fine inside the namespace, but not as the name of the exported class
INNER_TYPES = ["Reader", "Writer", "Object", "Array", "ArrayBuffer", "Map", "Date", "Error", "String", "Number", "Function"]
TRICKY_VARIANTS = ["A", "B", "C", "a", "b", "ONE", "TWO", "X1", "X2", "X10", "None_", "enum_", "uint8_", "E", "V", "_", "__a",
                   "Default", "structs", "exports", "toString", "T", "Test", "Flag"]


def S(name, fields):
    return {"n": "struct", "name": name, "fields": fields}


def F(name, ty, arr=False, opt=False):
    return {"name": name, "ty": ty, "arr": arr, "opt": opt}


def E(name, variants):
    return {"n": "enum", "name": name, "variants": list(variants)}


def X(name):
    return {"n": "export", "name": name}


def ident(rng, lo=1, hi=12):
    n = rng.randint(lo, hi)
    first = rng.choice(LETTERS + LETTERS.upper() + "_")
    return first + "".join(rng.choice(LETTERS + LETTERS.upper() + "_0123456789") for _ in range(n - 1))


class Names:
    """Distinct names, mixing tricky ones with plain and random ones."""

    def __init__(self, rng, tricky, avoid=(), style=None):
        self.rng, self.tricky = rng, tricky
        self.used = set(RESERVED) | set(avoid)
        self.style = style or rng.choice(["plain", "tricky", "mixed", "mixed"])
        self.n = 0

    def new(self):
        for _ in range(1000):
            r = self.rng.random()
            if self.style == "plain" or r < 0.25:
                x = LETTERS[self.n % 26] + (str(self.n // 26) if self.n >= 26 else "")
                self.n += 1
            elif self.style == "tricky" or r < 0.75:
                x = self.rng.choice(self.tricky)
                if self.rng.random() < 0.1:
                    x += self.rng.choice(["_", "1", "_a", "_item"])
            else:
                x = ident(self.rng)
            if x not in self.used:
                self.used.add(x)
                return x
        while True:
            x = "n%d" % self.n
            self.n += 1
            if x not in self.used:
                self.used.add(x)
                return x


def enum_size(rng):
    return rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, rng.randint(1, 32)])


def enum_decl(rng, name, size=None):
    names = Names(rng, TRICKY_VARIANTS, avoid=TS_RESERVED + ["NaN", "Infinity"])
    return E(name, [names.new() for _ in range(size or enum_size(rng))])


def valid_schema(rng, n_structs=None, n_enums=None, max_fields=5, cap=60, shuffle=True, type_style=None, deep=None,
                 codegen=True, min_fields=0):
    """A well-formed schema. cap bounds the number of fields after inlining all
    structs, since generated code is that large. With codegen=False names which
    only TypeScript objects to are used as well."""
    n_structs = n_structs if n_structs is not None else rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7])
    n_enums = n_enums if n_enums is not None else rng.choice([0, 0, 1, 1, 2, 3])
    deep = rng.random() < 0.25 if deep is None else deep
    tn = Names(rng, TRICKY_TYPES, avoid=(TS_RESERVED + TS_TYPE_NAMES if codegen else []) + RESERVED, style=type_style)
    enums = [enum_decl(rng, tn.new()) for _ in range(n_enums)]
    structs, weight = [], {}
    for k in range(n_structs):
        last = k == n_structs - 1
        avoid = TS_RESERVED + EXPORT_FIELD_SPECIAL if codegen else []
        if codegen and not last:
            # inner structs may use most special names
            avoid = FIELD_SPECIAL
        fn = Names(rng, TRICKY_FIELDS + (["name", "length", "class", "default", "arguments", "constructor", "write",
                                          "prototype", "this", "new", "in", "let"] if not last else []), avoid=avoid)
        fields, w = [], 0
        lo = min_fields if not last else max(1, min_fields)
        for _ in range(rng.randint(lo if rng.random() < 0.9 else 0, max_fields)):
            r = rng.random()
            pool = [s["name"] for s in structs if weight[s["name"]] + w <= cap]
            if pool and (r < 0.4 or (last and r < 0.6)):
                ty = pool[-1] if deep else rng.choice(pool)
            elif enums and r < 0.6:
                ty = rng.choice(enums)["name"]
            else:
                ty = rng.choice(BUILTINS)
            kind = rng.random()
            fields.append(F(fn.new(), ty, arr=kind < 0.25, opt=0.25 <= kind < 0.5))
            w += weight.get(ty, 1)
        if deep and structs and not any(f["ty"] == structs[-1]["name"] for f in fields) \
                and weight[structs[-1]["name"]] + w <= cap:
            kind = rng.random()
            fields.insert(rng.randint(0, len(fields)),
                          F(fn.new(), structs[-1]["name"], arr=kind < 0.25, opt=0.25 <= kind < 0.5))
            w += weight[structs[-1]["name"]]
        s = S(tn.new(), fields)
        structs.append(s)
        weight[s["name"]] = w + 1
    if codegen and rng.random() < 0.15:
        # names of JavaScript's own types are fine for types which are not exported
        rename_type(enums + structs, rng.choice(enums + structs[:-1] or structs)["name"], structs[-1]["name"],
                    rng.choice(INNER_TYPES))
    if codegen and rng.random() < 0.12:
        # the exported class may be called like something in its own code
        name_export(rng, enums + structs, structs[-1])
    exp = structs[-1]["name"]
    decls = enums + structs
    if shuffle:
        rng.shuffle(decls)
    ast = decls[:]
    ast.insert(rng.choice([len(ast), len(ast), 0, rng.randint(0, len(ast))]), X(exp))
    return ast


def name_export(rng, decls, s):
    path = rng.choice(["output", "output", "this"])
    at = s
    while at and at["fields"] and rng.random() < 0.7:
        f = rng.choice(at["fields"])
        path += "_" + f["name"]
        at = next((d for d in decls if d["n"] == "struct" and d["name"] == f["ty"]), None)
        if f["arr"]:
            path += "_item" if at else ""
    if path == "this" or rng.random() < 0.3:
        path += rng.choice(["_", "_len", "_index", "_item", "_temp"])
    if rng.random() < 0.15:
        path = rng.choice(["reader", "writer", "data", "buffer", "val", "failed", "finish", "read", "output_"])
    if all(d["name"] != path for d in decls):
        s["name"] = path


def rename_type(decls, old, export, new):
    if old == export or any(d["name"] == new for d in decls):
        return
    for d in decls:
        if d["name"] == old:
            d["name"] = new
        for f in d.get("fields", []):
            if f["ty"] == old:
                f["ty"] = new


# ---------------------------------------------------------------- defects


def decl_of(ast, kinds):
    return [d for d in ast if d["n"] in kinds]


def fresh(ast, rng, base="Q"):
    names = {d["name"] for d in ast} | set(RESERVED)
    for d in ast:
        if d["n"] == "struct":
            names |= {f["ty"] for f in d["fields"]}
    while True:
        x = base + ident(rng, 1, 4)
        if x not in names:
            return x


def fresh_field(st, rng):
    used = {f["name"] for f in st["fields"]}
    while True:
        x = "q" + ident(rng, 1, 4)
        if x not in used:
            return x


def some_struct(ast, rng):
    sts = decl_of(ast, ["struct"])
    if not sts or rng.random() < 0.15:
        s = S(fresh(ast, rng), [])
        ast.insert(rng.randint(0, len(ast)), s)
        return s
    return rng.choice(sts)


def some_enum(ast, rng):
    es = decl_of(ast, ["enum"])
    if not es or rng.random() < 0.3:
        e = E(fresh(ast, rng), ["P", "Q", "R"][: rng.randint(1, 3)])
        ast.insert(rng.randint(0, len(ast)), e)
        return e
    return rng.choice(es)


def any_type(ast, rng):
    return rng.choice(BUILTINS + [d["name"] for d in decl_of(ast, ["enum"])] * 2)


def d_noexport(ast, rng):
    ast[:] = [d for d in ast if d["n"] != "export"]


def d_manyexports(ast, rng):
    e = decl_of(ast, ["export"])
    other = rng.choice([d["name"] for d in ast])
    for _ in range(rng.choice([1, 1, 2])):
        ast.insert(rng.randint(0, len(ast)), X(rng.choice([e[0]["name"] if e else "Q", other])))


def d_export_unknown(ast, rng):
    for d in ast:
        if d["n"] == "export":
            n = d["name"]
            d["name"] = rng.choice([fresh(ast, rng), n.lower() if n.lower() not in {x["name"] for x in ast} else n + "_", ""])


def d_export_kind(ast, rng):
    t = rng.choice([some_enum(ast, rng)["name"], rng.choice(BUILTINS)])
    for d in ast:
        if d["n"] == "export":
            d["name"] = t


def d_dupdecl(ast, rng):
    d = rng.choice(decl_of(ast, ["struct", "enum"]))
    new = rng.choice([S(d["name"], []), E(d["name"], ["P"]), S(d["name"], [F("f", "uint8")]),
                      dict(d, **({"fields": [dict(f) for f in d["fields"]]} if d["n"] == "struct"
                                 else {"variants": list(d["variants"])}))])
    ast.insert(rng.randint(0, len(ast)), new)


def d_emptyenum(ast, rng):
    some_enum(ast, rng)["variants"] = []


def d_bigenum(ast, rng):
    some_enum(ast, rng)["variants"] = ["V%d" % i for i in range(rng.choice([33, 33, 34, 40, 63, 64, 65, 100, 256, 300]))]


def d_dupvariant(ast, rng):
    e = some_enum(ast, rng)
    if not e["variants"]:
        e["variants"] = ["P"]
    v = e["variants"]
    k = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
    v.insert(rng.choice([0, len(v), k + 1, rng.randint(0, len(v))]), v[k])
    del v[33:]
    if len(set(v)) == len(v):
        v[-1] = v[0]


def d_dupfield(ast, rng):
    s = some_struct(ast, rng)
    if not s["fields"]:
        s["fields"].append(F("q", any_type(ast, rng)))
    f = s["fields"]
    if rng.random() < 0.15:                # among many
        have = {x["name"] for x in f}
        more = [x for x in [a + b for b in ["", "1", "x", "_"] for a in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"] if x not in have]
        f += [F(x, rng.choice(BUILTINS)) for x in more[:rng.choice([8, 16, 20, 31, 64, 128, 200])]]
        rng.shuffle(f)
    k = rng.choice([0, len(f) - 1, rng.randrange(len(f))])
    kind = rng.random()
    new = F(f[k]["name"], rng.choice([f[k]["ty"], any_type(ast, rng)]), arr=kind < 0.2, opt=0.2 < kind < 0.4)
    f.insert(rng.choice([0, len(f), k + 1, rng.randint(0, len(f))]), new)


def d_optarray(ast, rng):
    s = some_struct(ast, rng)
    if s["fields"] and rng.random() < 0.5:
        f = rng.choice(s["fields"])
        f["arr"] = f["opt"] = True
    else:
        s["fields"].insert(rng.randint(0, len(s["fields"])), F(fresh_field(s, rng), any_type(ast, rng), True, True))


def d_missing(ast, rng):
    s = some_struct(ast, rng)
    names = {d["name"] for d in ast if d["n"] != "export"}
    cand = [fresh(ast, rng), "uint64", "Uint8", "bool", "int", "uint88", "String", "double", "int64", "uint", "", "8", "enum",
            "struct", "export"] + [n.swapcase() for n in names] + [n + "_" for n in names] + [n[:-1] for n in names]
    cand = [c for c in cand if c not in names and c not in BUILTINS]
    kind = rng.random()
    if s["fields"] and rng.random() < 0.4:
        rng.choice(s["fields"])["ty"] = rng.choice(cand)
    else:
        s["fields"].insert(rng.randint(0, len(s["fields"])),
                           F(fresh_field(s, rng), rng.choice(cand), arr=kind < 0.3, opt=0.3 < kind < 0.6))


def d_cycle(ast, rng, length=None):
    sts = decl_of(ast, ["struct"])
    k = length or rng.choice([1, 1, 2, 2, 3, 4, 6])
    ring = rng.sample(sts, min(k, len(sts)))
    while len(ring) < k:
        s = S(fresh(ast, rng), [F("q", "uint8")] if rng.random() < 0.5 else [])
        ast.insert(rng.randint(0, len(ast)), s)
        ring.append(s)
    for a, b in zip(ring, ring[1:] + ring[:1]):
        kind = rng.random()
        a["fields"].insert(rng.randint(0, len(a["fields"])),
                           F(fresh_field(a, rng), b["name"], arr=kind < 0.3, opt=0.3 < kind < 0.6))


def d_none(ast, rng):
    pass


DEFECTS = [d_noexport, d_manyexports, d_export_unknown, d_export_kind, d_dupdecl, d_emptyenum, d_bigenum, d_dupvariant,
           d_dupfield, d_optarray, d_missing, d_cycle]


def add_unused(ast, rng, k):
    """Adds k well-formed declarations the export does not use."""
    exp = [d["name"] for d in ast if d["n"] == "export"]
    for _ in range(k):
        name = fresh(ast, rng, rng.choice("QUabZ_"))
        if rng.random() < 0.4:
            d = enum_decl(rng, name)
        else:
            types = BUILTINS + [x["name"] for x in ast if x["n"] != "export"]
            fn = Names(rng, TRICKY_FIELDS)
            d = S(name, [F(fn.new(), rng.choice(types), arr=r < 0.3, opt=0.3 <= r < 0.5)
                         for r in (rng.random() for _ in range(rng.randint(0, 4)))])
        ast.insert(rng.randint(0, len(ast)), d)
    return exp


def checked_schema(rng):
    """Any schema, well-formed or with one to three defects."""
    ast = valid_schema(rng, codegen=False, cap=40)
    if rng.random() < 0.5:
        add_unused(ast, rng, rng.randint(1, 4))
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3])):
        rng.choice(DEFECTS)(ast, rng)
    return ast


def big_schemas(rng, thorough):
    """Schemas at sizes where tables, recursion and names get large."""
    out = []
    for n in ([40, 300] if not thorough else [40, 300, 600]):
        # a long chain; each struct also has a plain field
        ast = [S("S%d" % i, [F("v", "uint8"), F("n", "S%d" % (i + 1))]) for i in range(n)]
        ast.append(S("S%d" % n, [F("v", "string")]))
        for order in ("fwd", "rev", "rnd"):
            a = ast[:]
            if order == "rev":
                a.reverse()
            if order == "rnd":
                rng.shuffle(a)
            out.append(a + [X("S%d" % (n - 3))])
        # the same chain closed to a cycle
        a = [S(d["name"], [dict(f) for f in d["fields"]]) for d in ast]
        a[-1]["fields"].append(F("back", "S%d" % rng.randrange(n)))
        rng.shuffle(a)
        out.append(a + [X("S0")])
    # many fields, many variants, many declarations, many unused ones
    out.append([S("Wide", [F("f%d" % i, BUILTINS[i % 8], arr=i % 3 == 0, opt=i % 3 == 1) for i in range(400)]), X("Wide")])
    w = [F("f%d" % i, BUILTINS[i % 8]) for i in range(400)]
    out.append([S("Wide", w + [F("f7", "uint8")]), X("Wide")])
    ast = []
    for i in range(200):
        ast.append(E("E%d" % i, ["V%d" % k for k in range(1 + i % 32)]))
        ast.append(S("U%d" % i, [F("e", "E%d" % i), F("n", "E%d" % ((i * 7) % 200), arr=True)]))
    rng.shuffle(ast)
    out.append(ast + [X("U3")])
    out.append(ast + [E("Last", ["V%d" % k for k in range(33)]), X("U3")])
    out.append(ast + [S("U3", []), X("U3")])
    long = "n" + "x" * 300
    out.append([S(long, [F(long + "a", "uint8"), F(long + "b", long + "T")]), S(long + "T", [F(long, "string")]), X(long)])
    # layered graph: every struct uses all of the next layer (not inlined: unused by the export)
    layers = [["L%d_%d" % (i, j) for j in range(4)] for i in range(12)]
    ast = [S("Root", [F("a", "uint8")])]
    for i, l in enumerate(layers):
        for x in l:
            nxt = layers[i + 1] if i + 1 < len(layers) else []
            ast.append(S(x, [F("f%d" % k, y) for k, y in enumerate(nxt)] + [F("v", "float")]))
    rng.shuffle(ast)
    out.append(ast + [X("Root")])
    a = [d if d["name"] != "L11_2" else S("L11_2", [F("v", "L0_1")]) for d in ast]
    out.append(a + [X("Root")])
    return out


def sized_schemas(rng):
    """Well-formed schemas of every size in each direction: fields, depth, uses
    of one type, types, length of names."""
    out = []
    base = [E("En", ["P", "Q", "R"]), S("Leaf", [F("u", "int16"), F("v", "string")]), S("Nil", [])]
    types = BUILTINS + ["En", "Leaf", "Nil"]

    def pick(name, tys=types):
        k = rng.random()
        return F(name, rng.choice(tys), arr=k < 0.3, opt=0.3 <= k < 0.6)

    def done(*decls):
        a = list(decls)
        names = {d["name"] for d in a}
        a = [b for b in base if b["name"] not in names] + a
        rng.shuffle(a)
        out.append(a + [X("T")])

    for n in list(range(0, 25)) + [31, 32, 33, 40, 63, 64, 65]:
        done(S("T", [pick("f%d" % i, BUILTINS if n > 24 else types) for i in range(n)]))
        done(S("In", [pick("f%d" % i, BUILTINS) for i in range(n)]), S("T", [pick("a", ["In"]), pick("b")]))
    for d in range(1, 13):
        for mode in ("one", "arr", "opt", "mix"):
            names = ["D%d" % i for i in range(d)] + ["T"]
            rng.shuffle(names)
            names.remove("T")
            decls, ty = [], rng.choice(BUILTINS)
            for i, x in enumerate(names + ["T"]):
                m = rng.choice(["one", "arr", "opt"]) if mode == "mix" else mode
                fs = [F(rng.choice(["n", "m", "x_%d" % i]), ty, m == "arr", m == "opt")]
                for k in range(rng.randint(0, 2)):
                    fs.insert(rng.randint(0, len(fs)), pick("k%d" % k, BUILTINS + ["En"]))
                decls.append(S(x, fs))
                ty = x
            done(*decls)
    for n in range(2, 14):
        done(S("T", [pick("u%d" % i, ["Leaf"]) for i in range(n)]))
        done(S("In", [pick("u%d" % i, ["En"]) for i in range(n)]), S("T", [pick("a", ["In"]), pick("b", ["In"]), pick("c")]))
        es = [enum_decl(rng, "E%d" % i) for i in range(n)]
        done(*(es + [S("T", [pick("e%d" % i, ["E%d" % i]) for i in range(n)])]))
        ss = [S("S%d" % i, [pick("p"), pick("q")]) for i in range(n)]
        done(*(ss + [S("T", [pick("s%d" % i, ["S%d" % i]) for i in range(n)])]))
    for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 255, 256]:
        a, b, v = [("".join(rng.choice(LETTERS) for _ in range(n - 1)) + x) for x in "QRV"]
        done(E("W" + a, [v, "W"]), S(b, [pick("W" + a, ["W" + a]), pick(b)]), S("T", [pick(a, [b]), pick(b, BUILTINS), pick(v, [b])]))
    return out


# ---------------------------------------------------------------- rendering


def field_text(f):
    return "%s%s: %s%s" % (f["name"], "?" if f["opt"] else "", f["ty"], "[]" if f["arr"] else "")


def render(ast):
    """The plain rendering: one declaration per line."""
    out = []
    for d in ast:
        if d["n"] == "export":
            out.append("export " + d["name"])
        elif d["n"] == "enum":
            out.append("%s: enum { %s }" % (d["name"], ", ".join(d["variants"])))
        else:
            out.append("%s: struct { %s }" % (d["name"], ", ".join(field_text(f) for f in d["fields"])))
    return "\n".join(out) + "\n"


def all_orders(ast, rng, limit):
    decls = list(ast)
    if len(decls) <= 4:
        perms = [list(p) for p in itertools.permutations(decls)]
        rng.shuffle(perms)
        return perms[:limit]
    out = [decls[::-1]]
    while len(out) < limit:
        p = decls[:]
        rng.shuffle(p)
        out.append(p)
    return out[:limit]
