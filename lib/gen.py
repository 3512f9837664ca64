"""Sessions to replay: operations on figments and their sources, as JSON.

Everything random derives from the seed. A session is a list of operations;
handles (`h`) count the figments made so far, from 1.
"""
import json
import random

PROFS = ["default", "global", "debug", "release", "x"]
KEYS = ["a", "b", "c", "name", "k_1"]
ODD_KEYS = ["A", "a-b", "é", "two words", "0", "x:y", "日本", "Z"]
STRS = ["", "x", "hello", "10", "true", "Yes", "off", " 5 ", "1.5", "-3", "a.b", "é", "日本語", "q\"q",
        "back\\slash", "tab\there", "[1,2]", "{a=1}", "300", "1e3", "no", "ON", "0", "1", "A", "B", "😀",
        "\xa07\u2003", "\t-1\n", "\u30001.5", "\x85true", "truE\x85", "\u200b1"]
FLOATS = ["0.5", "1.0", "-2.25", "100.0", "3.140625", "-0.0", "1e300"]
INTS = {
    "u8": ["0", "1", "2", "5", "255"], "u16": ["0", "1", "256", "65535"],
    "u32": ["0", "2", "65536", "4294967295"],
    "u64": ["0", "1", "3", "4294967296", "9223372036854775808", "18446744073709551615"],
    "u128": ["0", "1", "18446744073709551616", "340282366920938463463374607431768211455"],
    "usize": ["0", "1", "200", "70000", "18446744073709551615"],
    "i8": ["0", "1", "-1", "-128", "127"], "i16": ["0", "-1", "-129", "128", "-32768", "32767"],
    "i32": ["0", "1", "-1", "-40000", "2147483647", "-2147483648"],
    "i64": ["0", "1", "5", "-3", "300", "-9223372036854775808", "9223372036854775807"],
    "i128": ["0", "-1", "7", "-170141183460469231731687303715884105728", "170141183460469231731687303715884105727"],
    "isize": ["0", "-1", "1", "-300", "9223372036854775807", "-9223372036854775808"],
}
WORDS = ["alpha", "beta", "Gamma", "d1"]
PRIMS = ["bool", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
         "f32", "f64", "char", "string", "unit", "ignored"]


def num(y, v):
    return {"k": "n", "y": y, "v": v, "t": ""}


def string(v):
    return {"k": "s", "v": v, "t": ""}


def boolean(b):
    return {"k": "b", "v": "true" if b else "false", "t": ""}


def dic(m):
    return {"k": "d", "m": m, "t": ""}


def arr(x):
    return {"k": "a", "x": x, "t": ""}


UNIT = {"k": "e", "v": "unit", "t": ""}
NONE = {"k": "e", "v": "none", "t": ""}


def casing(r, s):
    """Some spelling of `s` differing in ASCII case only."""
    how = r.randrange(4)
    if how == 0:
        return s
    if how == 1:
        return s.upper() if s.isascii() else s
    return "".join(c.upper() if c.isascii() and r.random() < .5 else c for c in s)


class Gen:
    def __init__(self, seed, tier="quick"):
        self.r = random.Random(seed)
        self.tier = tier

    # ------------------------------ values -------------------------------
    mode = ""       # of the session: "wide", "deep", "long" and "many" go beyond the usual sizes

    def size(self):
        return self.r.choice([9, 10, 11, 12, 16, 17, 20, 33])

    def anyint(self, y):
        """A number of the type: a chosen one, or one of any length."""
        r = self.r
        if r.random() < .65:
            return r.choice(INTS[y])
        n = r.randrange(2 ** r.randrange(1, hi_of(y).bit_length() + 1))
        return str(-n if y[0] == "i" and r.random() < .4 else n)

    def anyfloat(self, those):
        r = self.r
        return r.choice(those) if r.random() < .7 else repr(r.randrange(-80000, 80000) / 8 + 0.0)

    def anychar(self):
        r = self.r
        return chr(r.randrange(*r.choice([(33, 127), (33, 127), (0xa1, 0xac), (0xae, 0x17f), (0x391, 0x3a1), (0x4e00, 0x4e80), (0x1f600, 0x1f640)])))

    def anystr(self):
        r = self.r
        return r.choice(STRS) if r.random() < .85 else "".join(self.anychar() for _ in range(r.randrange(1, 9)))

    def ip4(self):
        r = self.r
        p = [r.choice(["0", "1", "9", "10", "99", "127", "192", "255", str(r.randrange(256))]) for _ in range(4)]
        if r.random() < .4:
            p[r.randrange(4)] = r.choice(["256", "01", "", "-1", " 1", "1000", "a", "00", "300", "+1"])
        return ".".join(p[:r.choice([4, 4, 4, 4, 4, 3, 2])] + ["1"] * (r.random() < .05))

    def kinded(self):
        """A dictionary the internally tagged enum may be made of."""
        r = self.r
        m = {"kind": r.choice([string("A"), string("B"), string("B"), string("C"), string("C"), string("D"), {"k": "c", "v": "B", "t": ""},
                               num(r.choice(["u8", "u16", "usize", "i8", "u64", "u128"]), r.choice(["0", "1", "2", "3"])), self.scalar()])}
        for k in r.sample(["x", "y", "a", "B", "w"], r.randrange(4)):
            m[k] = num("i32", r.choice(["1", "7", "-1", "300"])) if r.random() < .8 else self.value(1)
        if r.random() < .06:
            del m["kind"]
        return dic(m)

    def buffered(self):
        """A type read from serde's buffer."""
        r = self.r
        k = r.random()
        if k < .35:
            return {"t": "untag"}
        if k < .6:
            return {"t": "itag"}
        return {"t": "flat", "e": r.choice([{"t": "untag"}, {"t": "i64"}, {"t": "string"}, {"t": "u8"}, {"t": "bool"}, {"t": "opt", "e": {"t": "string"}},
                                            {"t": "seq", "e": {"t": "untag"}}, {"t": "map", "e": {"t": "untag"}}, {"t": "f64"}])}

    def keytype(self):
        r = self.r
        return r.choice([{"t": "char"}, {"t": "string"}, {"t": "u8"}, {"t": "bool"},
                         {"t": "enum", "n": "K", "vn": ["a", "b", "default", "x"], "vs": [{"k": "unit", "es": [], "fn": []}] * 3
                          + [{"k": r.choice(["unit", "new"]), "es": [{"t": "u8"}], "fn": []}]}])

    def longtext(self):
        r = self.r
        n = r.choice([23, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])
        c = r.choice(["ab", "x", "aé", "日a", "1", "a ", "a.b", "😀b"])
        return (c * n)[:n - 1] + r.choice(["z", "é", "0"])

    def scalar(self):
        r = self.r
        if self.mode == "long" and r.random() < .4:
            return string(self.longtext())
        k = r.randrange(12)
        if k < 4 and r.random() < .04:
            return string(self.ip4())
        if k < 4:
            return string(self.anystr())
        if k < 6:
            return boolean(r.random() < .5)
        if k < 9:
            y = r.choice(list(INTS))
            return num(y, self.anyint(y))
        if k == 9:
            return num(r.choice(["f64", "f64", "f32"]), self.anyfloat(FLOATS[:6]))
        if k == 10:
            return {"k": "c", "v": r.choice("aZ1é'\"0") if r.random() < .7 else self.anychar(), "t": ""}
        return dict(r.choice([UNIT, NONE]))

    def key(self):
        if self.mode == "long" and self.r.random() < .25:
            return self.longtext().replace(".", "-").replace(" ", "_")
        return self.r.choice(KEYS if self.r.random() < .88 else ODD_KEYS)

    def value(self, depth=3, keys=None):
        r = self.r
        k = r.random()
        if self.mode == "deep" and depth and k < .25:
            v = self.scalar()
            for _ in range(r.choice([4, 5, 6, 8, 9, 12, 16, 17, 24])):
                v = dic({r.choice(keys or KEYS): v}) if r.random() < .8 else arr([v])
            return v
        if self.mode == "wide" and depth and k < .25:
            return arr([self.value(0) for _ in range(self.size())])
        if depth and k > .98:
            return self.kinded()
        if depth == 0 or k < .45:
            return self.scalar()
        if k < .8:
            return self.dict(depth - 1, keys)
        return arr([self.value(depth - 1, keys) for _ in range(r.randrange(4))])

    def dict(self, depth=2, keys=None, lo=0):
        r = self.r
        if self.mode == "wide" and r.random() < .3:
            ks = r.sample(KEYS + ["k%d" % i for i in range(40)] + ["K1"], self.size())
            return dic({k: self.value(r.choice([0, 0, 0, min(depth, 1)]), keys) for k in sorted(ks)})
        ks = {(r.choice(keys) if keys else self.key()) for _ in range(r.randrange(lo, 4))}
        return dic({k: self.value(depth, keys) for k in sorted(ks)})

    def path(self, v, miss=.2):
        """A dotted key, usually of something inside of `v` (a dict value)."""
        r = self.r
        parts = []
        while v["k"] == "d" and v["m"] and (r.random() < (.95 if self.mode == "deep" else .75) or not parts):
            k = r.choice(sorted(v["m"]))
            if "." in k:
                break
            parts.append(k)
            v = v["m"][k]
        if r.random() < miss:
            parts.append(r.choice(KEYS + ["0", "zz"]))
        p = ".".join(parts)
        k = r.random()
        if k < .04:
            p += "."
        elif k < .07:
            p += "..a"
        elif k < .09:
            p = "." + p
        return p

    # ---------------------------- documents ------------------------------
    def doc(self, depth=3, null=False, big=False):
        """A neutral document: a dict expressible in every format."""
        r = self.r

        def val(d):
            k = r.random()
            if self.mode == "deep" and d and k < .25:
                v = val(0)
                for _ in range(r.choice([4, 6, 8, 12, 17])):
                    v = dic({r.choice(KEYS): v}) if r.random() < .8 else arr([v])
                return v
            if self.mode == "wide" and d and k < .25:
                return arr([val(0) for _ in range(self.size())])
            if d == 0 or k < .55:
                j = r.randrange(8)
                if self.mode == "long" and j < 3:
                    return string(self.longtext())
                if j < 3:
                    return string(r.choice(STRS[:19]))
                if j < 4:
                    return boolean(r.random() < .5)
                if j < 6:
                    ints = ["0", "1", "-1", "42", "300", "-40000", "9223372036854775807",
                            "-9223372036854775808"] + (["18446744073709551615"] if big else [])
                    return {"k": "n", "y": "int", "v": r.choice(ints), "t": ""}
                if j == 6 or not null:
                    return {"k": "n", "y": "float", "v": r.choice(FLOATS[:5]), "t": ""}
                return dict(UNIT)
            if k < .82:
                return dct(d - 1)
            return arr([val(d - 1) for _ in range(r.randrange(4))])

        def dct(d):
            if self.mode == "wide" and r.random() < .3:
                return dic({k: val(0) for k in r.sample(["k%d" % i for i in range(40)], self.size())})
            return dic({self.key(): val(d) for _ in range(r.randrange(4))})
        d = dct(depth)
        # Top-level keys may become profiles; which spelling then counts is up to the format.
        d["m"] = {k: v for k, v in d["m"].items() if k == k.lower() or k.lower() not in d["m"]}
        return d

    # ------------------------------- types -------------------------------
    def type_for(self, v, off=.12, depth=4, tagged=.08):
        """A type `v` conforms to, except for chance deviations."""
        r = self.r
        if r.random() < off:
            return self.type(1)
        if r.random() < tagged:
            return {"t": "tagged", "e": self.type_for(v, off, depth, 0)}
        if r.random() < .04:
            return {"t": "newtype", "e": self.type_for(v, off, depth, tagged)}
        if r.random() < .07:
            return {"t": "opt", "e": self.type_for(v, off, depth, tagged)}
        if r.random() < .03:
            return {"t": "untag"}
        k = v["k"]
        if k == "s" and (v["v"].count(".") == 3 and r.random() < .7 or r.random() < .02):
            return {"t": "ip4"}
        if k in "sc" and r.random() < .06:
            return {"t": "path"}
        if k == "d" and r.random() < (.7 if "kind" in v["m"] else .15 if "a" in v["m"] else .03):
            return {"t": "itag"} if "kind" in v["m"] else self.buffered()
        if k == "d" and r.random() < .05:
            return {"t": "kmap", "kt": self.keytype(), "e": self.type_for(v["m"][r.choice(sorted(v["m"]))], off, depth - 1, tagged) if v["m"] else self.type(1)}
        if k == "s":
            c = ["string", "string", "string"]
            if len(v["v"]) == 1:
                c.append("char")
            if r.random() < .1:
                return {"t": "relpath"}
            if r.random() < .12:
                return self.enum_with(v["v"], None)
            return {"t": r.choice(c)}
        if k == "c":
            return {"t": r.choice(["char", "string"])}
        if k == "b":
            return {"t": r.choice(["bool", "bool", "boolh"])}
        if k == "n":
            if v["y"] in ("f32", "f64", "float"):
                return {"t": r.choice(["f32", "f64"])}
            n = int(v["v"])
            if r.random() < .08 and n in (0, 1):
                return {"t": "boolh"}
            if r.random() < .1 and v["y"] in ("u8", "u16", "u32", "usize") and n < 6:
                return self.enum_with(None, None)
            fit = [y for y in INTS if lo_of(y) <= n <= hi_of(y)]
            return {"t": r.choice(fit) if r.random() < .8 else r.choice(PRIMS[1:15])}
        if k == "e":
            return r.choice([{"t": "unit"}, {"t": "unitstruct"}, {"t": "opt", "e": self.type(1)}])
        if k == "a":
            xs = v["x"]
            if r.random() < .4:
                n = len(xs) + r.choice([0, 0, 0, 1, -1])
                es = [self.type_for(x, off, depth - 1, tagged) for x in xs]
                es = (es + [self.type(1)])[:max(n, 0)]
                return {"t": r.choice(["tup", "tup", "tupstruct"]), "es": es} if es else {"t": "seq", "e": self.type(1)}
            if r.random() < .1:
                return self.struct([(self.key() + str(i), self.type_for(x, off, depth - 1, tagged), False)
                                    for i, x in enumerate(xs)])
            return {"t": "seq", "e": self.type_for(r.choice(xs), off, depth - 1, tagged) if xs else self.type(1)}
        m = v["m"]
        if r.random() < .12 and m:
            k0 = sorted(m)[0]
            return self.enum_with(k0, m[k0])
        if r.random() < .2:
            e = self.type_for(m[r.choice(sorted(m))], off, depth - 1, tagged) if m else self.type(1)
            return {"t": r.choice(["map", "map", "pairs"]), "e": e}
        fields = [(k, self.type_for(m[k], off, depth - 1, tagged), r.random() < .1)
                  for k in sorted(m) if r.random() < .9 and ident(k)]
        if r.random() < .25:
            k = r.choice([q for q in ("zz", "opt1") if q not in m] or ["opt2"])
            t = self.type(1)
            fields.append((k, {"t": "opt", "e": t} if r.random() < .6 else t, r.random() < .4))
        r.shuffle(fields)
        return self.struct(fields)

    def struct(self, fields):
        return {"t": "struct", "n": "S", "fn": [f[0] for f in fields], "es": [f[1] for f in fields],
                "df": [f[2] for f in fields], "deny": self.r.random() < .15}

    def enum_with(self, name, payload):
        r = self.r
        names = ["A", "B", "one", "two"]
        if name is not None and r.random() < .85 and "," not in name and name not in names:
            names[r.randrange(4)] = name
        vs = []
        for n in names:
            p = payload if n == name and payload is not None else None
            k = r.choice(["unit", "new", "tup", "struct"])
            if payload is None and r.random() < .6:
                k = "unit"
            if p is not None and p["k"] == "d" and r.random() < .6:
                st = self.struct([(x, self.type_for(p["m"][x], .05), False) for x in sorted(p["m"]) if ident(x)])
                vs.append({"k": "struct", "fn": st["fn"], "es": st["es"]})
            elif p is not None and p["k"] == "a" and p["x"] and r.random() < .6:
                vs.append({"k": "tup", "es": [self.type_for(x, .05) for x in p["x"]], "fn": []})
            elif p is not None and r.random() < .7:
                vs.append({"k": "new", "es": [self.type_for(p, .05)], "fn": []})
            elif k == "unit":
                vs.append({"k": "unit", "es": [], "fn": []})
            elif k == "new":
                vs.append({"k": "new", "es": [self.type(1)], "fn": []})
            elif k == "tup":
                vs.append({"k": "tup", "es": [self.type(0) for _ in range(r.choice([0, 2, 2, 3]))], "fn": []})
            else:
                fn = ["a", "b"][:r.choice([0, 1, 2, 2])]
                vs.append({"k": "struct", "fn": fn, "es": [self.type(0) for _ in fn]})
        return {"t": "enum", "n": "E", "vn": names, "vs": vs}

    def type(self, depth=2, ser=False):
        """Any type; with `ser`, one whose values can be serialized."""
        r = self.r
        prims = PRIMS[:-1] if ser else PRIMS
        if r.random() < .05:
            return {"t": r.choice(["ip4", "path"])}
        if depth == 0 or r.random() < .4:
            return {"t": r.choice(prims)}
        k = r.randrange(12 if ser else 17)
        t = lambda: self.type(depth - 1, ser)
        if k == 0:
            return {"t": "opt", "e": t()}
        if k == 1:
            return {"t": "seq", "e": t()}
        if k == 2:
            if self.mode == "wide":
                return {"t": "tup", "es": [self.type(0, ser) for _ in range(min(self.size(), 16))]}
            return {"t": "tup", "es": [t() for _ in range(r.randrange(0, 4))]}
        if k == 3:
            return {"t": "tupstruct", "es": [t() for _ in range(r.choice([0, 2, 3]))]}
        if k == 4:
            return {"t": "map", "e": t()}
        if k == 5 and self.mode == "wide":
            s = self.struct([("k%d" % i, self.type(0, ser), False) for i in r.sample(range(40), self.size())])
            s["deny"] = False if ser else s["deny"]
            return s
        if k in (5, 6):
            s = self.struct([(f, t(), False) for f in r.sample(KEYS, r.randrange(0, 4))])
            s["deny"] = False if ser else s["deny"]
            return s
        if k in (7, 8):
            names = ["A", "B", "Cc", "d"]
            fn = r.sample(KEYS, r.choice([0, 1, 2, 2, 3]))
            vs = [{"k": "unit", "es": [], "fn": []}, {"k": "new", "es": [t()], "fn": []},
                  {"k": "tup", "es": [t() for _ in range(r.choice([0, 2, 2, 3]))], "fn": []},
                  {"k": "struct", "fn": fn, "es": [t() for _ in fn]}]
            r.shuffle(vs)
            return {"t": "enum", "n": "E", "vn": names, "vs": vs}
        if k == 9:
            return {"t": "newtype", "e": t()}
        if k == 10:
            return {"t": "unitstruct"}
        if k == 11:
            return {"t": "pairs", "e": t()}
        if k == 15:
            return self.buffered()
        if k == 16:
            return {"t": "kmap", "kt": self.keytype(), "e": t()}
        return {"t": r.choice(["relpath", "value", "boolh"])} if k < 14 else {"t": "tagged", "e": t()}

    def typed(self, t):
        """A value of the type, in the form results have."""
        r = self.r
        k = t["t"]
        if k == "bool":
            return {"r": k, "v": r.choice(["true", "false"])}
        if k in INTS:
            return {"r": k, "v": self.anyint(k)}
        if k in ("f32", "f64"):
            return {"r": k, "v": self.anyfloat(FLOATS if k == "f64" else FLOATS[:6])}
        if k == "char":
            return {"r": k, "v": r.choice(["a", "Z", "0", "é", "😀", "'", self.anychar()])}
        if k == "string":
            return {"r": k, "v": self.longtext() if self.mode == "long" and r.random() < .5 else self.anystr()}
        if k in ("unit", "unitstruct"):
            return {"r": k, "v": ""}
        if k == "ip4":
            return {"r": k, "v": ".".join(str(r.choice([0, 1, 10, 127, 255, r.randrange(256)])) for _ in range(4))}
        if k == "path":
            return {"r": k, "v": r.choice(["", "/", "a", "a/b", "../x", "/a/./b/", self.anystr()])}
        if k == "bytes":
            return {"r": k, "v": r.choice(["", "abc", "~ !", "ab" * r.choice([4, 8, 9, 16, 33, 130])])}
        if k == "opt":
            return {"r": "none"} if r.random() < .35 else {"r": "some", "x": self.typed(t["e"])}
        if k == "seq":
            return {"r": "seq", "xs": [self.typed(t["e"]) for _ in range(self.size() if self.mode == "wide" and leafy(t["e"]) else r.randrange(4))]}
        if k in ("tup", "tupstruct"):
            return {"r": "seq", "xs": [self.typed(e) for e in t["es"]]}
        if k == "map":
            return {"r": "map", "m": {q: self.typed(t["e"]) for q in
                                  (r.sample(["k%d" % i for i in range(40)], self.size()) if self.mode == "wide" and leafy(t["e"])
                                  else r.sample(KEYS + ODD_KEYS, r.randrange(4)))}}
        if k == "pairs":
            ks = sorted(r.sample(KEYS, r.randrange(4)))
            return {"r": "pairs", "ks": ks, "xs": [self.typed(t["e"]) for _ in ks]}
        if k == "struct":
            return {"r": "struct", "m": {f: self.typed(e) for f, e in zip(t["fn"], t["es"])}}
        if k == "newtype":
            return {"r": "newtype", "x": self.typed(t["e"])}
        if k == "enum":
            i = r.randrange(len(t["vn"]))
            v = t["vs"][i]
            if v["k"] == "unit":
                x = {"r": "none"}
            elif v["k"] == "new":
                x = self.typed(v["es"][0])
            elif v["k"] == "tup":
                x = {"r": "seq", "xs": [self.typed(e) for e in v["es"]]}
            else:
                x = {"r": "struct", "m": {f: self.typed(e) for f, e in zip(v["fn"], v["es"])}}
            return {"r": "enum", "v": t["vn"][i], "kind": v["k"], "x": x}
        raise ValueError(k)


def leafy(t):
    return t["t"] in PRIMS


def ident(k):
    return "," not in k


def hi_of(y):
    b = 64 if y.endswith("size") else int(y[1:])
    return 2 ** b - 1 if y[0] == "u" else 2 ** (b - 1) - 1


def lo_of(y):
    b = 64 if y.endswith("size") else int(y[1:])
    return 0 if y[0] == "u" else -2 ** (b - 1)


# ------------------------------ text formats ------------------------------
def jstr(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32:
            out += "\\u%04x" % ord(c)
        else:
            out += c
    return out + '"'


def flow(v):
    """JSON, which is YAML flow style too."""
    k = v["k"]
    if k == "s":
        return jstr(v["v"])
    if k in ("b", "n"):
        return v["v"]
    if k == "e":
        return "null"
    if k == "a":
        return "[" + ", ".join(flow(x) for x in v["x"]) + "]"
    return "{" + ", ".join(jstr(q) + ": " + flow(x) for q, x in v["m"].items()) + "}"


def bare(k):
    return k and all(c.isascii() and (c.isalnum() or c in "_-") for c in k)


def to_json(v, r):
    return flow(v) if r.random() < .7 else flow(v).replace(", ", ",\n  ") + "\n"


def tkey(k, r):
    return k if bare(k) and r.random() < .8 else jstr(k)


def tval(v, r):
    k = v["k"]
    if k == "s":
        if r.random() < .3 and not any(c in v["v"] for c in "'\n\t"):
            return "'" + v["v"] + "'"
        return jstr(v["v"])
    if k in ("b", "n"):
        return v["v"]
    if k == "a":
        return "[" + ", ".join(tval(x, r) for x in v["x"]) + "]"
    return "{ " + ", ".join(tkey(q, r) + " = " + tval(x, r) for q, x in v["m"].items()) + " }"


def to_toml(v, r):
    out = []

    def table(path, d):
        later = []
        for k, x in d["m"].items():
            if x["k"] == "d" and r.random() < .7:
                later.append((k, x))
            elif x["k"] == "a" and x["x"] and all(e["k"] == "d" for e in x["x"]) and r.random() < .6:
                later.append((k, x))
            else:
                out.append(tkey(k, r) + " = " + tval(x, r))
        for k, x in later:
            p = path + [k]
            head = ".".join(tkey(q, r) for q in p)
            for e in (x["x"] if x["k"] == "a" else [x]):
                out.append(("[[%s]]" if x["k"] == "a" else "[%s]") % head)
                if x["k"] == "a":
                    for q, y in e["m"].items():
                        out.append(tkey(q, r) + " = " + tval(y, r))
                else:
                    table(p, e)
    table([], v)
    return "\n".join(out) + "\n"


def merges(v):
    return v["k"] == "d" and ("merge" in v or any(merges(x) for x in v["m"].values())) or \
        v["k"] == "a" and any(merges(x) for x in v["x"])


def to_yaml(v, r):
    """Block and flow style, quoted and bare scalars, anchors and aliases."""
    known = {}          # what anchors stand for

    def fl(v):
        """Flow style; values seen before may be aliases."""
        if v["k"] not in "da":
            return flow(v)
        text = json.dumps(v, sort_keys=True)
        if text in known and r.random() < .7:
            return "*" + known[text]
        if v["k"] == "a":
            s = "[" + ", ".join(fl(x) for x in v["x"]) + "]"
        else:
            lines = list(v["m"].items())
            if "merge" in v:
                lines.insert(r.randrange(len(lines) + 1), None)
            # In the order of writing: anchors come before their aliases.
            s = "{" + ", ".join(mkey() + ms(v["merge"]) if e is None else jstr(e[0]) + ": " + fl(e[1]) for e in lines) + "}"
        # An anchor is defined where it is first written.
        if text not in known and r.random() < .5:
            known[text] = "n%d" % len(known)
            s = "&" + known[text] + " " + s
        return s

    def mkey():
        return r.choice(["<<: ", "<<: ", "<<: ", '"<<": ', "'<<': ", "<< : "])

    def ms(m):
        return fl(m[0]) if len(m) == 1 and r.random() < .6 else "[" + ", ".join(fl(x) for x in m) + "]"

    if v["k"] != "d":
        return flow(v) + "\n"
    if not v["m"] and not merges(v) or r.random() < .15:
        return fl(v) + "\n"
    out = []

    def scal(x):
        if x["k"] == "s" and x["v"].isalpha() and x["v"].isascii() and \
                x["v"].lower() not in ("true", "false", "null", "yes", "no", "on", "off", "y", "n") and r.random() < .5:
            return x["v"]
        return fl(x)

    def block(d, ind):
        pad = "  " * ind
        lines = list(d["m"].items())
        if "merge" in d:
            lines.insert(0 if r.random() < .7 else r.randrange(len(lines) + 1), None)
        for line in lines:
            if line is None:
                out.append(pad + mkey() + ms(d["merge"]))
                continue
            k, x = line
            kk = k if bare(k) and not k.isdigit() and k.lower() not in ("y", "n", "yes", "no", "on", "off") and r.random() < .7 else jstr(k)
            if x["k"] == "d" and (x["m"] and r.random() < .8):
                out.append(pad + kk + ":")
                block(x, ind + 1)
            elif x["k"] == "a" and x["x"] and r.random() < .5:
                out.append(pad + kk + ":")
                for e in x["x"]:
                    out.append(pad + "  - " + (scal(e) if e["k"] not in "da" else fl(e)))
            else:
                out.append(pad + kk + ": " + (scal(x) if x["k"] not in "da" else fl(x)))
    block(v, 0)
    return "\n".join(out) + "\n"


def emit(fmt, v, r):
    return {"toml": to_toml, "json": to_json, "yaml": to_yaml, "yamlx": to_yaml,
            "cust": lambda v, r: "%" + to_json(v, r)}[fmt](v, r)


def infile(text):
    """The format of the harness's own is marked differently in files."""
    return "@" + text[1:] if text.startswith("%") else text


MALFORMED = {"toml": ["a = ", "[x", "a = 1\na = 2", "= 3", "a = {", "[[x]\n"],
             "json": ["{", "{\"a\": }", "", "{\"a\": 1,}", "[1, 2]", "{a: 1}"],
             "yaml": ["a: [", "{a: 1", "a: b: c", "- 1\n- 2", "\"x"],
             "yamlx": ["a: [", "{a: 1", "<<: 5", "a: \"x"],
             "cust": ["{}", "%{", "", "%", "%[]", "@{"]}
