"""Texts: random layouts of schemas, and damaged texts."""
import gen

UNI = ["é", "ß", "Ж", "中", "\U0001f600", " ", " ", "﻿", "́", "\x00", "\x7f", "\x0b", "\x0c", "İ"]
STRAY = list("$%&'()*+-./;<=>@\\^`|~!\"") + UNI
COMMENT_BITS = ["", " ", "comment", " a: struct { x: uint8 }", "export X", "{", "}", ":", ",", "?", "[]", "#", "##", "enum", "\t",
                "'", "\"", "\\n", "//", "é", "中", "\U0001f600", "uint8", "TODO", " trailing ", "\r"]


class Layout:
    def __init__(self, rng, style=None):
        self.rng = rng
        self.style = style or rng.choice(["tight", "plain", "airy", "wild", "wild", "crlf", "tabs"])
        self.nl = {"crlf": "\r\n"}.get(self.style, "\n")

    def blank(self):
        """Nothing, blanks or tabs."""
        s = self.style
        if s == "tight":
            return ""
        if s == "plain" or s == "crlf":
            return " "
        if s == "tabs":
            return self.rng.choice(["\t", "\t\t", ""])
        return "".join(self.rng.choice(" \t") for _ in range(self.rng.choice([0, 0, 1, 1, 2, 3])))

    def gap(self):
        """Any white space, possibly none."""
        s = self.style
        if s == "tight":
            return ""
        if s in ("plain", "crlf", "tabs"):
            return self.rng.choice(["", " ", self.nl, self.nl + "  "])
        return "".join(self.rng.choice([" ", "\t", "\n", "\r\n", "\r", " \n", "\n\n"]) for _ in range(self.rng.choice([0, 0, 1, 2, 3])))

    def gap1(self):
        return self.gap() or self.rng.choice([" ", "\t", "\n", "\r\n", "\r"])

    def comment(self):
        body = "".join(self.rng.choice(COMMENT_BITS) for _ in range(self.rng.randint(0, 4)))
        return "#" + body.replace("\n", "") + self.nl

    def comments(self, p):
        out = ""
        while self.rng.random() < p:
            out += self.comment() + self.gap()
        return out

    def enum(self, d):
        vs, out = d["variants"], self.gap()
        for i, v in enumerate(vs):
            out += v
            last = i == len(vs) - 1
            if self.rng.random() < (0.3 if last else 0.8):
                out += self.gap() + "," + self.gap()
            else:
                out += self.gap() if last else self.gap1()
        return out

    def struct(self, d):
        fs, p = d["fields"], {"tight": 0.0, "plain": 0.1}.get(self.style, 0.25)
        out = self.gap() + self.comments(p)
        for i, f in enumerate(fs):
            out += f["name"] + self.blank() + ("?" if f["opt"] else "") + ":" + self.blank() + f["ty"] + ("[]" if f["arr"] else "")
            last = i == len(fs) - 1
            if f["ty"] == "" and not f["arr"]:
                out += self.nl      # or else the next word would be the type
            if self.rng.random() < (0.3 if last else 0.8):
                out += self.gap() + "," + self.gap() + self.comments(p)
            else:
                c = self.comments(p)
                if c:
                    out += self.gap() + c
                else:
                    out += self.gap() if (last or f["arr"]) else self.gap1()
        return out

    def text(self, ast):
        p = {"tight": 0.0, "plain": 0.15}.get(self.style, 0.3)
        out = self.gap() + self.comments(p)
        for i, d in enumerate(ast):
            if d["n"] == "export":
                b = self.blank() or " "
                if d["name"] == "":
                    b = self.blank()
                out += "export" + b + d["name"]
                last = i == len(ast) - 1
                nxt = self.comments(p)
                if not d["name"] and not last and not nxt and "\n" not in b:
                    out += "\n"
                out += (nxt and self.gap() + nxt) or (self.gap() if last else self.gap1())
            else:
                body = self.enum(d) if d["n"] == "enum" else self.struct(d)
                out += "%s%s:%s%s%s{%s}" % (d["name"], self.blank(), self.blank(), d["n"], self.blank(), body)
                out += self.gap() + self.comments(p)
        if self.rng.random() < 0.15:
            out += "#" + "".join(self.rng.choice(COMMENT_BITS) for _ in range(2)).replace("\n", "")
        return out


TOKENS = ["export", "enum", "struct", "uint8", "string", "A", "b", "Foo_1", "9", "_", ":", "?", "{", "}", "[]", "[", "]", ",", "#",
          " ", "\t", "\n", "\r", "\r\n", "?:", "{}", "::", ",,", "}}", "# c\n", "export A", "x: uint8"]


# what other languages have
FOREIGN = ["// c", "// c\n", "/* c */", "/**/", "-- c\n", "; c\n", "% c\n", "'c'", '"c"', "= 1", "= 0x1", ": 3", "[4]", "[][]", "[ ]", "[\n]",
           "[]?", "??", "?[]", "!", "<A>", "(", ")", "()", "|", "&", "*", "+", "-", "->", "=>", "=", ";", ".", "..", "...", "@a", "$a", "\\",
           "import A", "import A\n", "package a;", "const", "type", "null", "true", "1", "-1", "1.5", "uint64", "bool", "A.B", "A-B", "a b",
           "export\n", "export default ", "export { A }", "{ }", "{", "}", ",", ",,", ", ,", ":", "::", "?:", ": ?", "#", "# c\n", "#\r",
           "\v", "\f", "\x00", "\x1a", "\x85", "\u00a0", "\u200b", "\u2028", "\ufeff", "\u3000", "é", "\r", "\n", "\t", "\\\n"]


def grid(text):
    """The text with each of these at each place between two tokens."""
    toks = split(text)
    for k in range(len(toks) + 1):
        for f in FOREIGN:
            for sep in ("", " "):
                yield "".join(toks[:k]) + sep + f + sep + "".join(toks[k:])


def long_line(rng, text):
    """A damaged text whose line goes on for long."""
    toks = split(text.replace("\r", " ").replace("\n", " ")) if rng.random() < 0.7 else split(text)
    k = rng.randrange(len(toks) + 1)
    n = rng.choice([40, 80, 120, 200, 256, 300, 500, 1000])
    fill = "".join(rng.choice(UNI + ["a", " ", "{", "b: uint8, "]) for _ in range(n))
    return "".join(toks[:k]) + rng.choice(STRAY) + fill + "".join(toks[k:])


def split(text):
    """Rough tokens, for damaging texts."""
    out, i = [], 0
    while i < len(text):
        j = i + 1
        if text[i].isalnum() or text[i] == "_":
            while j < len(text) and (text[j].isalnum() or text[j] == "_"):
                j += 1
        out.append(text[i:j])
        i = j
    return out


def damage(rng, text):
    toks = split(text)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not toks:
            toks = ["A"]
        k = rng.randrange(len(toks))
        solid = [i for i, t in enumerate(toks) if t.strip()]
        if solid and rng.random() < 0.8:
            k = rng.choice(solid)
        op = rng.randrange(9)
        if op == 0:
            del toks[k]
        elif op == 1:
            toks.insert(k, rng.choice(TOKENS))
        elif op == 2:
            toks.insert(k, toks[k])
        elif op == 3:
            m = rng.randrange(len(toks))
            toks[k], toks[m] = toks[m], toks[k]
        elif op == 4:
            del toks[k + rng.randint(0, 1):]
        elif op == 5:
            toks.insert(k, rng.choice(STRAY))
        elif op == 6:
            toks[k] = rng.choice(TOKENS)
        elif op == 7:
            t = toks[k]
            m = rng.randint(0, len(t))
            toks[k] = t[:m] + rng.choice(STRAY + TOKENS) + t[m:]
        else:
            toks[k] = rng.choice([toks[k] + toks[k], toks[k][:-1], toks[k].upper(), toks[k].lower(), toks[k] + " "])
    return "".join(toks)


def junk(rng):
    """Arbitrary text, mostly not close to the language."""
    kind = rng.randrange(6)
    n = rng.choice([0, 1, 2, 5, 20, 100])
    if kind == 0:
        return "".join(chr(rng.choice([rng.randrange(32), rng.randrange(32, 127), rng.randrange(128, 0xd800),
                                       rng.randrange(0xe000, 0x110000)])) for _ in range(n))
    if kind == 1:
        return "".join(rng.choice(TOKENS) for _ in range(n))
    if kind == 2:
        return "".join(rng.choice(TOKENS + STRAY) for _ in range(n))
    if kind == 3:
        return rng.choice(STRAY + TOKENS) * n
    if kind == 4:
        return rng.choice(["export", "export ", "export\t", "A:enum{", "A:struct{", "A:struct{a:", "#", "#\r", "A", "A:"]) \
            + "".join(rng.choice(TOKENS + STRAY) for _ in range(rng.randint(0, 3)))
    return rng.choice(UNI) * rng.randint(0, 3) + "".join(rng.choice(TOKENS) for _ in range(n)) + rng.choice(UNI)


def any_ast(rng):
    """Declarations of any kind, including ill-formed ones: parsing does not mind."""
    ast = gen.checked_schema(rng)
    if rng.random() < 0.3:
        for d in ast:
            if d["n"] == "struct" and d["fields"] and rng.random() < 0.5:
                rng.choice(d["fields"])["ty"] = rng.choice(["", "9", "enum", "struct", "export", "8bit", "_"])
    if rng.random() < 0.3:
        for d in ast:
            if d["n"] == "export":
                d["name"] = rng.choice(["", "9", "enum", "struct", "uint8", "export", d["name"]])
    if rng.random() < 0.3:
        names = ["export_", "exporter", "exportA", "enumA", "structs", "uint8s", "uint", "uint16x", "uint32_", "int8a", "int16b",
                 "int32c", "int1", "floats", "float_", "strings", "string9", "e", "s", "enu", "struc", "Enum", "STRUCT", "_enum", "_",
                 "expor", "x" * 200]
        rng.shuffle(names)
        for d in ast:
            if d["n"] != "export" and names and rng.random() < 0.6:
                d["name"] = names.pop()
            if d["n"] == "enum" and d["variants"] and names and rng.random() < 0.6:
                d["variants"][0] = rng.choice([names.pop(), "export"])
            if d["n"] == "struct" and d["fields"] and names and rng.random() < 0.6:
                d["fields"][-1]["name"] = rng.choice([names.pop(), "export"])
    return ast
