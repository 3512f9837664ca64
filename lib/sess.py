"""Per-property sessions. Each `cNN` method returns a list of operations."""
from gen import *

ORDS = ["merge", "join", "admerge", "adjoin"]


def coalesce(a, b, o):
    if a["k"] == "d" and b["k"] == "d":
        m = dict(a["m"])
        for k, v in b["m"].items():
            m[k] = coalesce(m[k], v, o) if k in m else v
        return dic(m)
    if a["k"] == "a" and b["k"] == "a" and o.startswith("ad"):
        return arr(a["x"] + b["x"])
    return b if o in ("merge", "admerge") else a


MORE_PROFS = ["staging", "prod-eu_1", "a.b", "é", "É", "defaults", "globalx", "de", "p" * 40, "0", "two words", "debug2",
              " debug", "debug ", " default", "global ", " x "]


def nomagic(t):
    """The type without magic ones inside, which only work at the top of `Either`."""
    if isinstance(t, list):
        return [nomagic(x) for x in t]
    if not isinstance(t, dict):
        return t
    if t.get("t") in ("tagged", "newtype"):
        return nomagic(t["e"])
    if t.get("t") in ("relpath", "either", "eitherpath"):
        return {"t": "string"}
    return {k: nomagic(v) for k, v in t.items()}


def nested(key, v):
    """What a dotted key makes of a value (approximately, for aiming only)."""
    for part in reversed([p for p in key.split(".") if p]):
        v = dic({part: v})
    return v


class Sess(Gen):
    """A session under construction. The shadow figments only aim the
    generator at interesting keys and types; they are no oracle."""

    def begin(self):
        self.ops, self.figs, self.held, self.names = [], [], [], 0
        self.tables = 0
        self.files = 0
        self.mode = ""
        if self.r.random() < (.1 if self.tier == "quick" else .2):
            self.mode = self.r.choice(["wide", "deep", "long", "many"])
        self.P = PROFS
        if self.r.random() < .2:
            self.P = PROFS + self.r.sample(MORE_PROFS, 3)
        return self

    # ------------------------------ operations ---------------------------
    def op(self, **k):
        self.ops.append(k)

    def name(self):
        self.names += 1
        return "P%d" % self.names

    def new(self):
        self.op(op=self.r.choice(["new", "default"]))
        self.figs.append(("default", {}))
        return len(self.figs)

    def _shadow(self, p):
        if p["kind"] == "held":
            p = self.held[p["i"] - 1]
        k = p["kind"]
        if k == "map":
            return {q.lower(): dic(m) for q, m in p["data"].items()}
        if k == "fig":
            return self.figs[p["h"] - 1][1]
        if k == "graft":
            v = self.at(self.merged(p["h"]), p["path"]) or p["fresh"]
            if v["k"] == "d":
                v = dic(dict(v["m"], fresh=p["fresh"]))
            return {p["layer"].lower(): nested(p["key"], v)}
        if k == "inner":
            return {"default": dic({"inner": boolean(True)})}
        if k == "tuple":
            v = nested(p["key"], p["val"])
            return {"global": v} if v["k"] == "d" else {}
        if k == "ser":
            prof = {"from": p["prof"], "defaultprof": p["prof"], "fromkey": p["prof"], "defaults": "default",
                    "default": "default"}.get(p["ctor"], "global")
            v = nested(p["key"], p["val"]) if p["ctor"] in ("default", "global", "defaultprof", "fromkey") else p["val"]
            return {prof.lower(): v} if v["k"] == "d" else {}
        if k in ("text", "file") and "doc" in p:
            opts = [o for o in p["opts"] if o[0] in ("nested", "profile")]
            if opts and opts[-1][0] == "nested":
                return {q.lower(): v for q, v in p["doc"]["m"].items() if v["k"] == "d"}
            return {(opts[-1][1] if opts else "default").lower(): p["doc"]}
        return {}

    def prov(self, h, p, ord=None, byref=None):
        r = self.r
        ord = ord or r.choice(ORDS)
        self.op(op="prov", h=h, ord=ord, site=r.randrange(2),
                byref=byref or r.choice(["false", "true"]), p=p)
        return self._push(h, p, ord)

    def frm(self, p):
        self.op(op="from", site=0, byref=self.r.choice(["false", "true"]), p=p)
        return self._push(None, p, "merge")

    def _push(self, h, p, ord):
        prof, maps = self.figs[h - 1] if h else ("default", {})
        maps = dict(maps)
        for q, v in self._shadow(p).items():
            maps[q] = coalesce(maps[q], v, ord) if q in maps else v
        sel = self.figs[p["h"] - 1][0] if p["kind"] == "fig" else p.get("prof", "") if p["kind"] in ("map", "err", "graft", "inner") else ""
        if sel and ord in ("merge", "admerge"):
            prof = sel
        self.figs.append((prof, maps))
        return len(self.figs)

    def hold(self, p):
        """Makes the provider now, to be provided later; its number."""
        self.op(op="hold", p=p)
        self.held.append(p)
        return len(self.held)

    def p_held(self, i):
        return {"kind": "held", "i": i, "name": self.name()}

    def select(self, h, prof):
        self.op(op="select", h=h, prof=prof)
        self.figs.append((prof, self.figs[h - 1][1]))
        return len(self.figs)

    def focus(self, h, key):
        self.op(op="focus", h=h, key=key)
        prof, maps = self.figs[h - 1]
        out = {}
        for q, v in maps.items():
            for part in [x for x in key.split(".")]:
                if not part:
                    break
                v = v["m"].get(part, UNIT) if v["k"] == "d" else UNIT
            if v["k"] == "d":
                out[q] = v
        self.figs.append((prof, out))
        return len(self.figs)

    def merged(self, h):
        prof, maps = self.figs[h - 1]
        v = maps.get("default", dic({}))
        for q in ([prof.lower()] if prof.lower() not in ("default", "global") else []) + ["global"]:
            v = coalesce(v, maps.get(q, dic({})), "merge")
        return v

    def q(self, h, path=None, miss=.2):
        self.op(op="q", h=h, path=self.path(self.merged(h), miss) if path is None else path)

    def at(self, v, path):
        for part in path.split("."):
            if not part:
                return v
            if v["k"] != "d" or part not in v["m"]:
                return None
            v = v["m"][part]
        return v

    def x(self, h, ty=None, path=None, lossy=None, inner=None, off=.12, lossytypes=False):
        r = self.r
        inner = inner or r.choice(["true", "false"])
        m = self.merged(h)
        if path is None:
            path = self.path(m, .05) if inner == "true" else ""
        v = self.at(m, path) or UNIT
        ty = ty or self.type_for(v, off)
        self.op(op="x", h=h, path=path, inner=inner, ty=ty,
                lossy=lossy or r.choice(["true", "false"]))

    # ------------------------------ providers ----------------------------
    def p_map(self, profs=None, n=None, keys=None, depth=2, prof=None, name=None, extra=True):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3, 0]) if n is None else n
        data = {}
        for q in r.sample(profs or self.P, min(n, len(profs or self.P))):
            data[casing(r, q) if self.anycase else q] = self.dict(depth, keys, lo=1)["m"]
        p = {"kind": "map", "data": data, "name": name or self.name(),
             "prof": (r.choice([""] * 3 + self.P) if prof is None else prof)}
        if self.anycase and p["prof"]:
            p["prof"] = casing(r, p["prof"])
        if extra and r.random() < .35:
            p["interp"] = r.choice(["default", "upper", "slash", "count"])
        if extra and r.random() < .4:
            p["src"] = r.choice([["file", r.choice(["f1.toml", "sub/f2.toml"])], ["absfile", "/no/such/f3"],
                                 ["custom", r.choice(["vault", "db:7"])], ["", ""]])
        return p

    anycase = False

    def p_err(self, name=None):
        r = self.r
        msgs = [["e%d" % r.randrange(90), r.choice(["", "", "a", "a.b", "c"])] for _ in range(r.choice([1, 1, 2, 3] if self.mode != "many" else [1, 4, 12]))]
        p = {"kind": "err", "msgs": msgs, "prof": r.choice(["", "", "debug", "x"]), "name": name or self.name()}
        if r.random() < .3:
            p["interp"] = r.choice(["upper", "slash", "count"])
        if r.random() < .4:
            p["src"] = r.choice([["file", "f1.toml"], ["custom", "vault"], ["absfile", "/no/such/f3"]])
        return p

    def own(self, p):
        """The rest of a provider of one's own: selection, source, name."""
        r = self.r
        p.update(prof=r.choice([""] * 3 + self.P), name=self.name())
        if r.random() < .3:
            p["interp"] = r.choice(["upper", "slash", "count"])
        if r.random() < .4:
            p["src"] = r.choice([["file", "f1.toml"], ["custom", "vault"], ["absfile", "/no/such/f3"]])
        return p

    def p_graft(self, h):
        """A value out of figment h, which it is provided to, and a new one."""
        r = self.r
        return self.own({"kind": "graft", "h": h, "path": self.path(self.merged(h), .1), "key": self.dotted(0),
                         "layer": r.choice(self.P), "fresh": self.value(1)})

    def p_inner(self, h=None):
        """Reads some figment at a type, failing as that does."""
        r = self.r
        h = h or r.randrange(1, len(self.figs) + 1)
        root = r.choice(["true", "false", "false"])
        m = self.merged(h)
        path = self.path(m, .1) if root == "false" else ""
        return self.own({"kind": "inner", "h": h, "path": path, "root": root,
                         "ty": self.type_for(self.at(m, path) or UNIT, .4)})

    def dotted(self, odd=.08):
        r = self.r
        k = ".".join(r.choice(KEYS) for _ in range(r.choice([1, 1, 2, 2, 3])))
        if r.random() < odd:
            k = r.choice(["", ".", k + ".", "." + k, k + "..z", "a..b", " a ", "é.b", "A.b"])
        return k

    def p_tuple(self, own=False, odd=.08):
        return {"kind": "tuple", "key": self.dotted(odd), "val": self.value(2), "name": "" if own else self.name()}

    def p_ser(self, odd=.08, own=False):
        r = self.r
        ctor = r.choice(["from", "defaults", "globals", "default", "global", "defaultprof", "fromkey"])
        keyed = ctor in ("default", "global", "defaultprof", "fromkey")
        val = self.value(2) if keyed or r.random() < .1 else self.dict(2)
        prof = r.choice(self.P)
        return {"kind": "ser", "ctor": ctor, "prof": casing(r, prof) if self.anycase else prof,
                "key": self.dotted(odd), "val": val, "name": "" if own else self.name()}

    def optlist(self, nested=.3, extra=()):
        r = self.r
        o = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            if r.random() < nested:
                o.append(["nested", ""])
            else:
                q = r.choice(self.P)
                o.append(["profile", casing(r, q) if self.anycase else q])
        o += list(extra)
        r.shuffle(o)
        return o

    def is_nested(self, opts):
        o = [x for x in opts if x[0] in ("nested", "profile")]
        return bool(o) and o[-1][0] == "nested"

    def docfor(self, opts, fmt, merge=False):
        r = self.r
        if self.is_nested(opts) and r.random() < .9:
            d = dic({(casing(r, q) if self.anycase else q): self.doc(2) for q in r.sample(self.P, r.randrange(4))})
        else:
            d = self.doc(3, big=fmt != "toml", null=fmt != "toml")
            if self.is_nested(opts):     # what a null profile means is the format's business
                d["m"] = {k: (string("x") if v["k"] == "e" else v) for k, v in d["m"].items()}
        return d

    def p_text(self, bad=.0, fmt=None, own=False, opts=None, doc=None):
        r = self.r
        fmt = fmt or r.choice(["toml", "json", "yaml", "yamlx"] * 3 + ["cust"])
        opts = self.optlist() if opts is None else opts
        if r.random() < bad:
            doc, text, b = dic({}), r.choice(MALFORMED[fmt]), "true"
        else:
            doc = doc or self.docfor(opts, fmt)
            text, b = emit(fmt, doc, r), "false"
        return {"kind": "text", "fmt": fmt, "text": text, "doc": doc, "bad": b, "opts": opts,
                "name": "" if own else self.name()}

    def wfile(self, path, fmt, doc=None, bad="false", text=None):
        doc = doc or self.doc(2)
        self.op(op="wfile", path=path, text=infile(emit(fmt, doc, self.r)) if text is None else text, doc=doc, bad=bad)
        return doc

    def p_file(self, bad=.0, fmt=None, own=False, path=None, opts=None):
        """A file that exists, read by absolute path or relative to the root."""
        r = self.r
        fmt = fmt or r.choice(["toml", "json", "yaml", "yamlx"] * 3 + ["cust"])
        self.files += 1
        path = path or r.choice(["", "sub/", "sub/deep/"]) + "f%d.%s" % (self.files, fmt)
        opts = self.optlist(extra=r.choice([[], [["required", "true"]], [["search", "false"]]])) if opts is None else opts
        if r.random() < bad:
            doc = dic({})
            self.wfile(path, fmt, doc, "true", r.choice(MALFORMED[fmt] + ["\uf8ff"]))
        else:
            doc = self.wfile(path, fmt, self.docfor(opts, fmt))
        return {"kind": "file", "fmt": fmt, "path": path, "abs": r.choice(["true", "false"]), "opts": opts,
                "doc": doc, "name": "" if own else self.name()}

    def p_env(self, own=False, n=None):
        """A pipeline without collisions: distinct names under one prefix."""
        r = self.r
        self.tables += 1
        pre = "T%d_" % self.tables
        for k in r.sample(["A", "B", "C_X", "NAME", "K_Y"], r.randrange(4) if n is None else n):
            self.op(op="setenv", k=pre + k, v=r.choice(ENVVALS))
        steps = [["prefixed", r.choice([pre, pre.lower()])]]
        if r.random() < .5:
            steps.append(["split", "_"])
        if r.random() < .4:
            steps.append(r.choice([["profile", r.choice(self.P)], ["global"]]))
        return {"kind": "env", "steps": steps, "name": "" if own else self.name()}

    def p_fig(self, h=None):
        return {"kind": "fig", "h": h or self.r.randrange(1, len(self.figs) + 1)}

    def provider(self, fig=.15, err=.0, kinds=("map", "map", "map", "ser", "tuple", "text", "env")):
        r = self.r
        if self.figs and r.random() < fig:
            return self.p_fig()
        if r.random() < err:
            return r.choice([self.p_err, self.p_err, self.p_tree, lambda: self.p_text(1.0)])()
        k = r.choice(kinds)
        return {"map": self.p_map, "ser": self.p_ser, "tuple": self.p_tuple, "text": self.p_text,
                "env": self.p_env, "file": self.p_file}[k]()

    def start(self, **kw):
        if self.r.random() < .5:
            return self.new()
        return self.frm(self.provider(**kw))

    def history(self, n, fig=.15, err=.0, sel=.12, foc=.08, kinds=("map", "map", "map", "ser", "tuple", "text", "env"),
                branch=.25, graft=.0, inner=.0):
        """A history of n steps; the handle of its last figment."""
        r = self.r
        if self.mode == "many":
            n *= 4
        h = self.start(fig=0, err=err, kinds=kinds)
        for _ in range(n):
            b = h if r.random() > branch else r.randrange(1, len(self.figs) + 1)
            k = r.random()
            if k < sel:
                q = r.choice(self.P + ["none"])
                h = self.select(b, casing(r, q) if self.anycase else q)
            elif k < sel + foc:
                h = self.focus(b, self.path(self.merged(b), .1))
            elif k < sel + foc + .06:
                h = self.start(fig=0, err=err, kinds=kinds)
            else:
                k = r.random()
                h = self.prov(b, self.p_graft(b) if k < graft else self.p_inner() if k < graft + inner
                              else self.provider(fig, err, kinds))
        return h

    # ------------------------------ properties ---------------------------
    def c01(self):
        r = self.r
        ks = ["a", "b", "c"][:r.choice([2, 3])]
        h = self.new() if r.random() < .5 else self.frm(self.p_map(keys=ks, prof=""))
        for _ in range(r.randrange(1, 5) * (4 if self.mode == "many" else 1)):
            b = h if r.random() < .8 else r.randrange(1, len(self.figs) + 1)
            k = r.random()
            if k < .1:
                p = self.p_fig()
            elif k < .2:
                p = {"kind": "ser", "ctor": r.choice(["defaults", "globals"]), "prof": "", "key": "",
                     "val": self.dict(2, ks), "name": self.name()}
            elif k < .3:
                p = {"kind": "tuple", "key": ".".join(r.choice(ks) for _ in range(r.randrange(1, 3))),
                     "val": self.value(2, ks), "name": self.name()}
            else:
                p = self.p_map(profs=["default", "default", "global", "debug"][:r.choice([1, 4])], keys=ks, depth=3, prof="")
            h = self.prov(b, p)

    def c02(self):
        r = self.r
        ks = ["a", "b"]
        h = self.new()
        for _ in range(r.randrange(2, 6) * (4 if self.mode == "many" else 1)):
            if r.random() < .35:
                h = self.select(h, r.choice(self.P + ["none"]))
            else:
                h = self.prov(h, self.p_map(keys=ks, depth=2, n=r.choice([1, 2, 3])), r.choice(["merge", "join"]))
        for _ in range(2):
            self.q(h)

    def c03(self):
        r = self.r
        h = self.history(r.randrange(2, 7), fig=.2, kinds=("map", "map", "ser", "tuple", "text", "env", "file"), graft=.15)
        self.q(h)
        self.q(r.randrange(1, len(self.figs) + 1))
        self.op(op="meta", h=h)

    def c04(self):
        r = self.r
        h = self.history(r.randrange(2, 7), fig=.25, err=.4, foc=.1, kinds=("map", "map", "ser", "text"), inner=.2)
        self.q(h)
        self.x(h, inner=r.choice(["true", "false"]))
        self.op(op="errdisp", h=h)

    def typed_base(self, kinds=("map", "map", "ser", "text", "env"), n=3):
        r = self.r
        h = self.new()
        for _ in range(r.randrange(8, 20) if self.mode == "many" else r.randrange(1, n + 1)):
            h = self.prov(h, self.provider(.05, .0, kinds), r.choice(["merge", "join", "adjoin"]))
        if r.random() < .5:
            h = self.select(h, r.choice(self.P))
        return h

    def vde(self, v=None, off=.2):
        """Reads a value by itself, in no figment."""
        v = v or self.value(self.r.choice([0, 1, 2, 3]))
        self.op(op="vde", val=v, ty=nomagic(self.type_for(v, off)))

    def c05(self):
        if self.r.random() < .3:
            self.vde(off=.35)
        h = self.typed_base()
        if self.r.random() < .2:
            h = self.prov(h, self.p_inner())
            if self.r.random() < .3:
                h = self.prov(h, self.p_inner())
        for _ in range(self.r.randrange(1, 4)):
            self.x(h, off=.18)

    def c06(self):
        r = self.r
        h = self.typed_base()
        for _ in range(r.randrange(2, 5)):
            self.q(h, miss=.3)
        if r.random() < .4:
            self.q(h, r.choice(["", ".", "..", "a.", ".a", "a..b", "é", "zz.y", "a.0", " a", "A", "日本.a", "a b.c"]))

    def c07(self):
        r = self.r
        h = self.history(r.randrange(1, 5), foc=.1, err=.08)
        g = self.focus(h, self.path(self.merged(h), .1))
        if r.random() < .5:
            g2 = self.focus(g, self.path(self.merged(g), .1))
            self.q(g2)
        self.q(g)
        self.q(g)
        self.q(h)
        if r.random() < .3:
            k = self.select(g, r.choice(self.P))
            self.q(k)
            self.prov(k, self.p_map())

    def serializable(self, t):
        return t

    def c08(self):
        r = self.r
        k = r.random()
        if k < .6:
            t = self.type(r.choice([1, 2, 3]), ser=True)
            self.op(op="ser", ty=t, val=self.typed(t))
            if r.random() < .6:
                t = self.type(2, ser=True)
                v = self.typed(t)
                key = ".".join(r.sample(KEYS, r.choice([1, 2])))
                h = self.new()
                h = self.prov(h, {"kind": "sert", "ctor": r.choice(["default", "global"]), "prof": "", "key": key,
                                  "ty": t, "typed": v, "val": UNIT, "name": self.name()})
                self.x(h, ty=t, path=key, inner="true", lossy="false")
        elif k < .75:
            t = self.struct([(f, self.type(2, True), False) for f in r.sample(KEYS, r.randrange(4))])
            t["deny"] = False
            v = self.typed(t)
            h = self.frm({"kind": "sert", "ctor": r.choice(["defaults", "globals", "from"]), "prof": "debug", "key": "",
                          "ty": t, "typed": v, "val": UNIT, "name": self.name()})
            if r.random() < .8:
                h = self.select(h, "debug")
            self.x(h, ty=t, path="", inner="false", lossy="false")
        elif k < .8:
            self.vde(off=.05)
        elif k < .85:
            self.op(op="badmap", key=r.choice(["u8", "bool", "char", "unit", "none", "f64", "seq", "map", "str"]))
        elif k < .93:
            v = self.value(3)
            h = self.frm({"kind": "ser", "ctor": "default", "prof": "", "key": "a", "val": v, "name": self.name()})
            self.q(h, "a")
        else:
            t = {"t": "bytes"}
            self.op(op="ser", ty=t, val=self.typed(t))
            t = self.type(1, True)
            self.frm({"kind": "sert", "ctor": "defaults", "prof": "", "key": "", "ty": t, "typed": self.typed(t),
                      "val": UNIT, "name": self.name()})

    def lossy_scalar(self):
        r = self.r
        k = r.random()
        if k < .25:
            return string(r.choice(["", " "]) + casing(r, r.choice(["true", "yes", "on", "false", "no", "off", "1", "0",
                                                                    "tru", "y", "n", "2", "on ", "ｙｅｓ", "00", "+1", "-0"])))
        if k < .5:
            y = r.choice(list(INTS))
            s = self.anyint(y)
            if r.random() < .15:
                s = r.choice(["+", "0", "-"]) + s
            return string(r.choice(["", " ", "\t"]) + s + r.choice(["", "", " ", "x", "\n"]))
        if k < .7:
            return string(r.choice(["1.5", "0.1", "-2.25", ".5", "1.", "1e3", "1.5e3", "3.14159265358979", "1.7976931348623157e308",
                                    "16777217.0", "nan", "inf", " 1.25 ", "1_000", "0x10", "1.2.3", ".", "-.5", "9007199254740993.0"]))
        if k < .8:
            y = r.choice(list(INTS))
            return num(y, r.choice(["0", "1"]))
        return self.scalar()

    def lossy_type(self):
        r = self.r
        return {"t": r.choice(["bool", "bool", "bool", "string", "char", "boolh", "value", "unit"] + list(INTS) + ["f32", "f64", "f64"])}

    def lossy_pair(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < .4:
            return self.lossy_scalar(), self.lossy_type()
        v, t = self.lossy_pair(d - 1)
        if k < .5:
            return v, {"t": "opt", "e": t}
        if k < .6:
            return arr([v] + [self.lossy_scalar() for _ in range(r.randrange(2))]), {"t": "seq", "e": t}
        if k < .7:
            v2, t2 = self.lossy_pair(d - 1)
            return arr([v, v2]), {"t": r.choice(["tup", "tupstruct"]), "es": [t, t2]}
        if k < .8:
            return dic({r.choice(KEYS): v}), {"t": r.choice(["map", "pairs"]), "e": t}
        if k < .87:
            return v, {"t": r.choice(["newtype", "tagged"]), "e": t}
        if k < .93:
            n = r.choice(["A", "B"])
            return dic({n: v}), {"t": "enum", "n": "E", "vn": ["A", "B"],
                                 "vs": [{"k": "new", "es": [t], "fn": []}] * 2}
        ks = r.sample(KEYS, 2)
        v2, t2 = self.lossy_pair(d - 1)
        return dic({ks[0]: v, ks[1]: v2}), self.struct([(ks[0], t, False), (ks[1], t2, False)])

    def c09(self):
        r = self.r
        if r.random() < .4:
            self.op(op="lossy", val=self.lossy_scalar() if r.random() < .8 else self.value(1))
            self.op(op="lossy", val=self.lossy_scalar())
        v, t = self.lossy_pair(3)
        h = self.frm({"kind": "map", "data": {"default": {"a": v}}, "name": self.name(), "prof": ""})
        for lossy in ("false", "true"):
            self.x(h, ty=t, path="a", inner="true", lossy=lossy)
        t2 = {"t": "map", "e": t}
        self.x(h, ty=t2, path="", inner="false", lossy="true")

    # -------------------------- environment syntax -----------------------
    def env_scalar(self):
        r = self.r
        k = r.randrange(9)
        if k == 0:
            return r.choice(["true", "false"])
        if self.mode == "long" and r.random() < .3:
            return r.choice(["", '"']) + self.longtext() + r.choice(["", '"'])
        if k == 1:
            y = r.choice(list(INTS))
            return self.anyint(y)
        if k == 2 and r.random() < .3:
            return self.anyfloat(FLOATS)
        if k == 2:
            return r.choice(FLOATS + ["1.", ".5", "-1.5e3", "1e3", "1E3", "+1.5", "inf", "-inf", "nan", "NaN", "1.0.0", "1_0.5"])
        if k == 3:
            q = "".join(r.choice(["a", "é", "😀", " ", "\\n", "\\t", "\\\\", "\\\"", "\\u00e9", "\\U0001F600", "\\u{e9}", "\\x41",
                                  "\\q", "\\", "\t", r.choice(["\n", "\r", "\x01", "\x08", "\x1f", "\x7f", "\x80", "\x0b", "\x85", "\U0010ffff"]), "\\ud800", "\\u12", "[", "]", "{", "}", "=", ",", "'", "\\b\\f\\r", "\\uD83D\\uDE00"])
                        for _ in range(r.randrange(5)))
            return '"' + q + '"'
        if k == 4:
            return "'" + r.choice(["a", "é", "😀", "ab", "", "'", "\\n", "\\", " "]) + "'"
        if k == 5:
            return r.choice(["truex", "True", " true", "+1", "-0", "007", "--1", "1 2", "0x1f", "-", "+", ".", "'", '"', "''"])
        if k == 6:
            return self.anystr()
        if k == 7:
            return "".join(r.choice("ab1.-,=[]{}\"' \\é") for _ in range(r.randrange(8)))
        return r.choice(WORDS)

    def env_text(self, d):
        r = self.r
        sp = lambda: r.choice(["", "", "", " ", "\t", "  "]) if r.random() < .96 else r.choice(["\n", "\r", "\x0b", "\x0c", "\x85", "\xa0", "\u2003", "\u3000", "\u200b"])
        k = r.random()
        if d == 0 or k < .35:
            return sp() + self.env_scalar() + sp()
        sep = lambda: sp() + ("," if r.random() < .96 else r.choice([";", ",,", ""])) + sp()
        if k < .68:
            n = self.size() if self.mode == "wide" and d < 3 else r.randrange(4)
            xs = sep().join(self.env_text(0 if n > 4 else d - 1) for _ in range(n))
            return sp() + "[" + xs + (r.choice(["", ",", " "]) if r.random() < .2 else "") + ("]" if r.random() < .96 else r.choice(["", "}", "]]"])) + sp()
        key = lambda: r.choice(["a", "b", "key", '"a b"', "a.b", "é", '""', "1", "a-b", '"x=y"', "'c'", "a b", '"q\\"r"', "", "true"])
        n = self.size() if self.mode == "wide" and d < 3 else r.randrange(4)
        if n > 4:
            key = lambda: "k%d" % r.randrange(40)
        xs = sep().join(key() + sp() + ("=" if r.random() < .96 else r.choice([":", "", "=="])) + self.env_text(0 if n > 4 else d - 1) for _ in range(n))
        return sp() + "{" + xs + ("}" if r.random() < .96 else r.choice(["", "]", ",}"])) + sp()

    def c10(self):
        r = self.r
        for _ in range(4):
            k = r.random()
            if k < .93:
                s = self.env_text(r.choice([0, 1, 2, 2, 3]))
            elif k < .96:
                n = r.choice([5, 126, 127, 128, 129, 130, 200])
                s = "[" * n + r.choice(["", "1", "x", "true"]) + "]" * (n if r.random() < .8 else n - 1)
            elif k < .98:
                n = r.choice([64, 127, 128, 129])
                s = "{a=" * n + "1" + "}" * n
            elif k < .99:
                n = r.choice([63, 64, 65])
                s = "[{a=" * n + r.choice(["1", "", "[]"]) + "}]" * n
            else:                                       # many side by side, few within one another
                n = r.choice([40, 127, 128, 129, 160])
                m = r.choice([0, 0, 1, 3])
                e = r.choice(["[]", "{}", "[1]", "{b=[]}", "[{}]"])
                if r.random() < .5:
                    s = ",".join([e] * n)
                else:
                    s = ",".join("k%d=%s" % (i, e) for i in range(n))
                    m = m or 1
                    s = "{" + s + "}"
                s = "[" * m + s + "]" * m
            self.op(op="parse", s=s)
            if r.random() < .2:
                # Mutations: one character removed, doubled or swapped.
                i = r.randrange(len(s) + 1)
                m = r.randrange(3)
                t = s[:i] + s[i + 1:] if m == 0 else s[:i] + s[i:i + 1] * 2 + s[i + 1:] if m == 1 else \
                    s[:i] + r.choice("[]{}\"',= \\é1.-\xa0\x85\u2003\n") + s[i:]
                self.op(op="parse", s=t)

    def pipeline(self):
        r = self.r
        steps = []
        if r.random() < .7:
            steps.append(["prefixed", casing(r, r.choice(["app_", "a", "app", "x_", "", " app_", "app.", "x-", "é", "app__"]))])
        pats = ["a", "b", "app_", "name", "c_", "x", "a_b", "A"]
        names = ["a", "b", "a_b", "name", "A_B", "c_d", "k"]
        for _ in range(r.randrange(5)):
            k = r.choice(["split", "split", "only", "ignore", "map", "filter", "filternot", "filtermap", "lowercase", "profile", "global"])
            if k == "split":
                steps.append([k, r.choice(["_", "__", "a", ".", "-", "B", "_", "é"])])
            elif k in ("only", "ignore"):
                steps.append([k, [casing(r, n) for n in r.sample(names, r.randrange(1, 4))]])
            elif k == "map":
                steps.append([k, r.choice(["id", "dots", "upper", "lower", "pre", "suf", "tail", "abtox", "pad", "empty"])])
            elif k in ("filter", "filternot"):
                steps.append([k, casing(r, r.choice(pats))])
            elif k == "filtermap":
                steps.append([k, casing(r, r.choice(pats)), r.choice(["id", "dots", "upper", "pre", "suf", "tail"])])
            elif k == "lowercase":
                steps.append([k, r.choice(["true", "false"])])
            elif k == "profile":
                steps.append([k, r.choice(self.P)])
            else:
                steps.append([k])
        return steps

    def c11(self):
        r = self.r
        names = ["A", "B", "A_B", "NAME", "C_D", "APP_A", "APP_B_C", "APP_NAME", "App_x", "app_y_", "_LEAD", "X_A", "X__B", "a.b",
                 "APP_A.B", "APP.A", "APP.B.C", "X-A", "éA", "APP__B", "APP_", "APP", "É", "APP_é", "K", "Z-1", " SP ", "APP_ C", "X_.y", "A..B", "A_b_C_d",
                 "\uf8ff", "APP_\uf8ffX", "A\uf8ff"]
        seen = set()
        for n in r.sample(names, r.randrange(1, 6)) + (["V%d" % i for i in range(self.size())] if self.mode in ("wide", "many") else []):
            n = casing(r, n)
            if n.lower() in seen:
                continue
            seen.add(n.lower())
            self.op(op="setenv", k=n, v=r.choice(ENVVALS))
        for _ in range(r.randrange(1, 4)):
            self.op(op="envdata", p={"kind": "env", "steps": self.pipeline(), "name": ""})
        if r.random() < .5:
            if r.random() < .7:
                n = r.choice(sorted(seen) or names)
                if n in seen and r.random() < .4:
                    k = next(o["k"] for o in self.ops if o["op"] == "setenv" and o["k"].lower() == n)
                    self.op(op="setenv", k=k, v=r.choice([" pad ", "\ttab\n", "\u2003wide\u2003", " ", "  true", "x "]))
            else:
                n = r.choice(names)
            n = n.replace("\uf8ff", "\ufffd")
            self.op(op="envvar", name=r.choice(["", "", "", " "]) + casing(r, n) + r.choice(["", "", "", " ", "x"]))
        if r.random() < .3:
            self.op(op="unsetenv", k=self.ops[0]["k"])
            self.op(op="envdata", p={"kind": "env", "steps": self.pipeline(), "name": ""})

    # -------------------------------- files ------------------------------
    DIRS = ["", "w", "w/x", "w/x/y", "o"]
    NAMES = ["app.toml", "c/app.toml", "z.toml", "./app.toml", "../app.toml", "w/../app.toml", "x/../c/app.toml", "l/app.toml",
             "../../app.toml", "./.././app.toml", "app.toml/", "app.toml/.", "app.toml/../app.toml", "c//app.toml", "none/../app.toml"]

    def c12(self):
        r = self.r
        if self.mode == "deep":
            self.DIRS = Sess.DIRS + ["w/x/y" + "/d%d" % i * n for i, n in ((1, 4), (2, 9), (3, 17))]
        else:
            self.DIRS = Sess.DIRS
        fmt = r.choice(["toml", "json", "yaml"] * 2 + ["cust"])
        for d in self.DIRS[1:]:
            self.op(op="mkdir", path=d)
        made, links = {}, []
        for _ in range(r.randrange(1, 5)):
            d, n = r.choice(self.DIRS), r.choice(["app.toml", "app.toml", "c/app.toml", "z.toml", "l/app.toml"])
            p = (d + "/" if d else "") + n
            if n[0] == "l" and p not in made and p[:-9] not in links:
                links.append(p[:-9])
                self.op(op="mkdir", path=p[:-9], link="true")
            if any(q.startswith(p + "/") or p.startswith(q + "/") for q in made) or p in made:
                continue
            if r.random() < .2:
                if r.random() < .5:
                    self.op(op="mkdir", path=p, link=r.choice(["true", "false"]))
                else:
                    self.op(op="mkodd", path=p, how=r.choice(["socket", "dangling"]))
                made[p] = "d"
                continue
            if r.random() < .08:                        # there, but not to be read
                self.wfile(p, fmt, dic({}), "true", r.choice(["\uf8ff", "\uf8ff", MALFORMED[fmt][0]]))
            else:
                self.wfile(p, fmt, self.doc(1))
            if r.random() < .15:
                self.ops[-1]["link"] = "true"
            made[p] = "f"
        h = self.new()
        for _ in range(r.randrange(1, 4)):
            if r.random() < .7:
                self.op(op="cd", path=r.choice(self.DIRS))
            ab = r.choice(["false", "false", "true"])
            path = r.choice(self.NAMES[:4] * 3 + self.NAMES[4:] if ab == "false" else
                            ["app.toml", "w/app.toml", "w/x/z.toml", "o/c/app.toml", "w", "w/../app.toml", "w/l/app.toml", "o/.././app.toml"])
            if r.random() < .4 and made:
                path = r.choice(sorted(made))
                if ab == "false" and r.random() < .5:
                    path = path.split("/")[-1]
            opts = []
            for _ in range(r.randrange(4)):
                opts.append(r.choice([["required", "true"], ["required", "false"], ["search", "false"], ["search", "true"],
                                      ["profile", "debug"]]))
            h = self.prov(h, {"kind": "file", "fmt": fmt, "path": path, "abs": ab, "opts": opts, "name": self.name()},
                          r.choice(["merge", "adjoin"]))
            fs = [p for p in made if made[p] == "f"]
            if fs and r.random() < .2:
                p = r.choice(fs)
                self.op(op="rm", path=p)
                del made[p]
        self.op(op="meta", h=h)

    def mergedoc(self, deep=2):
        """A document with merge keys, merged mappings having some too."""
        r = self.r
        d = dic({r.choice(["a", "b", "c"]): self.doc(1) if r.random() < .2 else self.scal_doc() for _ in range(r.randrange(1, 4))})
        if deep and r.random() < .7:
            d["merge"] = [self.mergedoc(deep - 1 if r.random() < .6 else 0) for _ in range(r.choice([1, 1, 2, 3]))]
        if deep and r.random() < .5:
            d["m"][r.choice(["s", "a"])] = self.mergedoc(deep - 1)
        if deep and r.random() < .2:
            d["m"]["l"] = arr([self.mergedoc(deep - 1), self.scal_doc()])
        if deep and r.random() < .3:     # the same mapping twice
            x = d["m"].get("s") or self.mergedoc(1)
            d["m"]["s"] = d["m"]["z"] = x
            d.setdefault("merge", []).append(x)
        return d

    def scal_doc(self):
        r = self.r
        return r.choice([string(r.choice(WORDS)), {"k": "n", "y": "int", "v": r.choice(["1", "2", "-7"]), "t": ""}, boolean(True)])

    def c13(self):
        r = self.r
        k = r.random()
        if k < .15:
            d = self.mergedoc()
            self.frm({"kind": "text", "fmt": "yamlx", "text": emit("yamlx", d, r), "doc": d, "bad": "false",
                      "opts": self.optlist(0), "name": self.name()})
            return
        opts = self.optlist(.45)
        if k < .3:
            self.frm(self.p_text(1.0, opts=opts))
            h = self.frm(self.p_file(1.0))
            self.op(op="meta", h=h)
            return
        d = self.docfor(opts, "toml")
        for fmt in ["toml", "json", "yaml", "yamlx", "cust"]:
            if r.random() < .6:
                self.frm(self.p_text(fmt=fmt, opts=opts, doc=d))
            else:
                self.files += 1
                path = "f%d.any" % self.files
                self.wfile(path, fmt, d)
                self.frm({"kind": "file", "fmt": fmt, "path": path, "abs": "false", "opts": opts, "doc": d, "name": self.name()})

    def c14(self):
        r = self.r
        rel = ["a.txt", "../up.txt", "./here", "d/e.txt", "", "/abs/x", "..", "é.txt", "a//b", "d/../e"]
        for d in self.DIRS[1:]:
            self.op(op="mkdir", path=d)
        h = self.new()
        ks = ["p", "q"]
        for i in range(r.randrange(1, 4)):
            k = r.random()
            doc = dic({key: r.choice([string(r.choice(rel)), string(r.choice(rel)), arr([string(r.choice(rel))]),
                                      dic({"in": string(r.choice(rel))}),
                                      self.relstruct(rel)]) for key in ks if r.random() < .8})
            if k < .65:
                fmt = r.choice(["toml", "json", "yaml"] * 2 + ["cust"])
                path = r.choice(self.DIRS)
                path = (path + "/" if path else "") + "f%d" % i
                self.wfile(path, fmt, doc)
                ab = r.choice(["true", "false"])
                if r.random() < .2:
                    path = r.choice(["o/../", "w/x/../../"]) + path
                p = {"kind": "file", "fmt": fmt, "path": path, "abs": ab, "opts": self.optlist(0), "doc": doc, "name": self.name()}
            elif k < .8:
                p = {"kind": "map", "data": {r.choice(self.P): doc["m"]}, "prof": "", "name": self.name(),
                     "src": r.choice([["file", "w/x"], ["file", "w/no"], ["absfile", "/no/such/f"], ["custom", "v"], ["absfile", "rel/f"]])}
            else:
                p = {"kind": "ser", "ctor": "defaults", "prof": "", "key": "", "val": doc, "name": self.name()}
            h = self.prov(h, p, r.choice(["merge", "join", "admerge"]))
        if r.random() < .4:
            h = self.select(h, r.choice(self.P))
        if r.random() < .4:
            self.op(op="cd", path=r.choice(self.DIRS))
        for _ in range(3):
            m = self.merged(h)
            key = r.choice(sorted(m["m"]) or ["p"])
            v = m["m"].get(key, UNIT)
            if "in" in v.get("m", {}) and r.random() < .5:
                key += ".in"
                v = v["m"]["in"]
            t = {"t": "relpath"}
            if v["k"] == "a":
                t = {"t": "seq", "e": t}
            elif "in" in v.get("m", {}):
                t = self.struct([("in", t, False)])
            if r.random() < .3:
                t = {"t": r.choice(["opt", "tagged"]), "e": t}
            self.x(h, ty=t, path=key, inner="true")
            if v["k"] == "s" or v["k"] == "d" and "in" not in v["m"]:
                self.op(op="relser", h=h, path=key, other=r.choice(["p", "q", "p.in", key]))
        self.x(h, ty={"t": "struct", "n": "S", "fn": ks, "es": [{"t": "opt", "e": {"t": "relpath"}}] * 2, "df": [False] * 2, "deny": False},
               path="", inner="false")

    def relstruct(self, rel):
        """A relative path as it is serialized, or nearly."""
        r = self.r
        m = {"___figment_relative_path": string(r.choice(rel))}
        if r.random() < .6:
            m["___figment_relative_metadata_path"] = string(r.choice(["w/f", "o/p/g.toml", "f", "../f", "/no/f", "w/no/f"]))
        if r.random() < .15:
            m[r.choice(sorted(m))] = boolean(True) if r.random() < .5 else arr([])
        if r.random() < .1:
            del m[r.choice(sorted(m))]
        if r.random() < .1:
            m["z"] = string("z")
        return dic(m)

    def sibling(self, v):
        """A document of the same size, differing in a scalar."""
        r = self.r
        v = json.loads(json.dumps(v))
        if v["k"] == "d":
            for k in r.sample(sorted(v["m"]), len(v["m"])):
                w = self.sibling(v["m"][k])
                if w != v["m"][k]:
                    v["m"][k] = w
                    break
        elif v["k"] == "s" and v["v"].isascii() and v["v"].isalpha():
            v["v"] = v["v"][::-1] if v["v"] != v["v"][::-1] else "q" * len(v["v"])
        elif v["k"] == "n" and v["y"] == "int":
            v["v"] = {"0": "1", "1": "0", "42": "24", "300": "400", "-1": "-2"}.get(v["v"], v["v"])
        return v

    def c18(self):
        r = self.r
        h = self.start(fig=0)
        if r.random() < .6:
            for _ in range(r.randrange(1, 4)):
                self.hold(self.provider(0, 0, ("ser", "text", "env", "env", "env", "file", "file", "tuple")))
        for _ in range(r.randrange(4, 9)):
            k = r.random()
            if self.held and r.random() < .3:
                b = h if r.random() < .6 else r.randrange(1, len(self.figs) + 1)
                h = self.prov(b, self.p_held(r.randrange(1, len(self.held) + 1)))
                continue
            b = h if r.random() < .6 else r.randrange(1, len(self.figs) + 1)
            if k < .15:
                self.op(op="setenv", k=r.choice(["T1_A", "T1_B", "T2_A", "T1_NEW"]), v=r.choice(ENVVALS))
            elif k < .22:
                d = r.choice([".", "sub", "sub/deep"])
                self.op(op="mkdir", path=d)
                self.op(op="cd", path=d)
            elif k < .32 and self.files:
                w = [o for o in self.ops if o["op"] == "wfile"]
                if w:
                    o = r.choice(w)
                    fmt = o["path"].rsplit(".")[-1]
                    self.wfile(o["path"], fmt, self.sibling(o["doc"]) if r.random() < .6 else self.doc(1))
                    h = self.prov(b, {"kind": "file", "fmt": fmt, "path": o["path"], "abs": r.choice(["true", "false"]), "opts": [],
                                      "doc": self.ops[-1]["doc"], "name": self.name()})
            elif k < .36 and self.tables:
                pre = "T%d_" % r.randrange(1, self.tables + 1)
                self.op(op=r.choice(["setenv", "unsetenv"]), k=pre + r.choice(["A", "B", "NEW"]), v=r.choice(ENVVALS))
                h = self.prov(b, {"kind": "env", "steps": [["prefixed", pre]], "name": self.name()})
            elif k < .4:
                h = self.select(b, r.choice(self.P))
            elif k < .48:
                h = self.focus(b, self.path(self.merged(b), .1))
            elif k < .58:
                self.q(b)
            elif k < .66:
                self.x(b)
            else:
                h = self.prov(b, self.provider(.2, .08, ("map", "ser", "text", "env", "env", "file", "file")))
            if r.random() < .25:
                self.op(op="proj")
        self.op(op="proj")

    def c19(self):
        r = self.r
        h = self.history(r.randrange(2, 4), fig=.3, kinds=("map", "map", "tuple"))
        g = self.history(r.randrange(1, 4), fig=.3, kinds=("map", "map", "tuple"))
        k = self.prov(h, self.p_fig(g))
        if r.random() < .5:
            k = self.prov(k, self.p_fig())
        if r.random() < .5:
            k = self.prov(k, self.p_tuple())
        self.q(k)

    def c17(self):
        r = self.r
        vs = r.choice(["0", "1", "40", "400", "1200"])
        for i in range(r.choice([2, 3, 4, 6, 8])):
            self.op(op="thread", jails=[
                dict(how=r.choice(["try", "expect"]), end=r.choice(["ok", "ok", "err", "panic"]), looks=str(r.randrange(5)),
                     vars=vs if r.random() < .8 else "3", pause=r.choice(["0", "0", "60", "400", "1500"]))
                for _ in range(r.randrange(1, 6))])

    def c20(self):
        r = self.r
        t = r.choice([2, 3, 4, 8])
        provs = r.choice([1, 2, 3, 5])
        n = r.choice([1000, 3000, 6000]) if self.tier == "quick" else r.choice([1000, 6000, 20000, 80000])
        self.op(op="tags", t=str(t), figs=str(max(2, n // t // provs)), provs=str(provs),
                relay=str(r.choice([0, 1, 2, 7])),
                gap=str(max(0, r.choice([0, 0, 1 << 16, 1 << 16, 1 << 20] if self.tier == "quick" else [0, 1 << 16, 1 << 20, 1 << 24]) - n // 2)))

    def c21(self):
        r = self.r
        self.anycase = True
        try:
            h = self.history(r.randrange(2, 6), sel=.25, kinds=("map", "map", "ser", "text"))
            self.q(h)
            for _ in range(2):
                a = casing(r, r.choice(self.P + ["dé", "", "Deb", "ag"]))
                b = casing(r, r.choice(self.P + [a, a, "dé", "de", "gl", ""]))
                self.op(op="profeq", a=a, b=b)
        finally:
            self.anycase = False

    def c22(self):
        r = self.r
        if r.random() < .35:
            h = self.history(r.randrange(1, 5), fig=.2, err=.5, kinds=("map", "text", "env", "file"), inner=.25)
            if r.random() < .3:
                self.op(op="cd", path=".")
            self.op(op="errdisp", h=h)
            return
        h = self.typed_base(kinds=("map", "map", "ser", "text", "env", "file"))
        for d in ("sub/deep", "w/x"):
            if r.random() < .4:
                d += r.choice(["", "", "/a/b", "/a/b/c/d", "/a/b/c/d/e/f"])
                self.op(op="mkdir", path=d)
                self.op(op="cd", path=d)
                break
        for _ in range(r.randrange(1, 4)):
            self.x(h, off=.4)
        if r.random() < .3:
            self.op(op="srcdisp", path=r.choice(["f.toml", "sub/f", "w/x/f.toml", "w/y", "sub/deep", "/etc/none", "f", "e.x"]))
            if r.random() < .3:
                for n in (4, 5, 6):
                    self.op(op="cd", path="")
                    d = "/".join(["n"] * (n + r.randrange(3)))
                    self.op(op="mkdir", path=d)
                    self.op(op="cd", path=d)
                    self.op(op="srcdisp", path=r.choice(["f.toml", "n/f", "n/n/f", "m/f", "e"]))

    def c23(self):
        r = self.r
        if r.random() < .3:
            y = r.choice(list(INTS))
            self.vde(num(y, r.choice(INTS[y])) if r.random() < .5 else None)
        if r.random() < .5:
            h = self.typed_base()
            for _ in range(r.randrange(1, 4)):
                self.x(h, off=.12)
        else:
            v = self.value(2)
            if r.random() < .4:
                y = r.choice(list(INTS))
                v = num(y, r.choice(INTS[y]))
            h = self.frm({"kind": "map", "data": {"default": {"a": v}}, "name": self.name(), "prof": ""})
            for _ in range(4):
                self.x(h, ty=self.type_for(v, .25) if r.random() < .7 else self.type(2), path="a", inner="true", lossy="false")

    def rpath(self):
        r = self.r
        n = r.randrange(0, 5) if not self.mode else r.randrange(4, 14)
        up = r.choice([0, 0, .15, .4])
        p = "/".join(r.choice(["..", "..", "."]) if r.random() < up else
                     r.choice(["a", "a", "b", "A", "ab", "é", "É", ".a", "a.b", "a b", "..."]) for _ in range(n))
        return ("/" if r.random() < .6 else "") + p

    def c24(self):
        r = self.r
        for _ in range(4):
            a = self.rpath()
            b = self.rpath()
            if r.random() < .3:
                b = a + r.choice(["", "/a", "/b/c"])
            elif r.random() < .3:
                a = b + r.choice(["", "/a", "/b/c"])
            self.op(op="diff", p=a, b=b)
        if r.random() < .6:
            self.op(op="mkdir", path=r.choice(["w/x", "w", "o/p/q", "W/x", "wx", "w/X/y"]))
            self.op(op="cd", path=self.ops[-1]["path"])
        for _ in range(2):
            self.op(op="srcdisp", path=r.choice(["f.toml", "w/f", "w/x/f.toml", "w/x/y/f", "o", "o/p", "a/b/c", "w/x", "/no/f",
                                                 "W/x/f", "wx/f", "w/xy/f", "O/p/q/f", "w/X/f.toml", "é/f", "w/x y/f"]))

    def c25(self):
        r = self.r
        k = r.random()
        if k < .45:
            v = r.choice([string(casing(r, r.choice(["true", "false", "tru", "yes", "", "1", "0", " true"]))), boolean(r.random() < .5),
                          num(r.choice(list(INTS)), r.choice(["0", "1"])), num("i8", "-1"), num("u64", "2"), num("f64", "1.0"),
                          self.scalar(), self.value(1)])
            t = {"t": "boolh"}
        elif k < .7:
            e = self.type_for(self.scalar(), 0, 1, 0)
            v = dic({q: self.scalar() for q in r.sample(KEYS + ODD_KEYS[:3], r.randrange(4))}) if r.random() < .9 else self.value(1)
            if v["k"] == "d" and v["m"] and r.random() < .8:
                e = {"t": r.choice(["value", "value", self.type_for(v["m"][sorted(v["m"])[0]], 0, 1, 0)["t"]])}
                if e["t"] not in PRIMS + ["value"]:
                    e = {"t": "value"}
            t = {"t": "pairs", "e": e}
        elif k < .9:
            v = self.value(1)
            t = {"t": "either", "e": nomagic(self.type_for(v, .5, 2, 0)), "e2": nomagic(self.type_for(v, .4, 2, 0))}
        else:
            v = r.choice([string("a/b"), string("/x"), self.scalar(), self.value(1)])
            t = {"t": "eitherpath", "e": nomagic(self.type_for(v, .3, 2, 0))}
        if r.random() < .2:
            t = {"t": "opt", "e": t}
        h = self.frm({"kind": "map", "data": {r.choice(["default", "global"]): {"a": v}}, "name": self.name(), "prof": "",
                      **({"src": ["file", "w/f"]} if r.random() < .5 else {})})
        self.x(h, ty=t, path="a", inner="true", lossy=r.choice(["false", "false", "true"]))
        if r.random() < .3:
            t = {"t": "pairs", "e": self.type(1, True)}
            self.op(op="ser", ty=t, val=self.typed(t))

    def c26(self):
        r = self.r
        h = self.new()
        for _ in range(r.randrange(1, 5)):
            k = r.choice(["text", "file", "env", "ser", "tuple", "map", "fig"])
            if k == "text":
                p = self.p_text(own=True)
            elif k == "file":
                p = self.p_file(own=True)
                if r.random() < .3:
                    p["path"] = "missing.toml"
                    p.pop("doc")
                    p["opts"] = [o for o in p["opts"] if o[0] != "required"]
            elif k == "env":
                p = {"kind": "env", "steps": self.pipeline(), "name": ""}
            elif k == "ser":
                p = self.p_ser(own=True)
            elif k == "tuple":
                p = self.p_tuple(own=True)
            elif k == "fig":
                p = self.p_fig()
            else:
                p = self.p_map()
            h = self.frm(p) if r.random() < .2 else self.prov(h, p)
        self.op(op="meta", h=h)

    def c27(self):
        r = self.r
        for _ in range(2):
            self.op(op="nest", key=self.dotted(.25), val=self.value(2))
        h = self.new()
        for _ in range(r.randrange(1, 4)):
            h = self.prov(h, self.p_ser(.2) if r.random() < .6 else self.p_tuple(odd=.2))
            last = self.ops[-1]["p"]
            self.q(h, last["key"])


    # ------------------------------- jails -------------------------------
    def jpath(self):
        r = self.r
        k = r.random()
        rel = "/".join(r.choice(["a", "a", "b", "f", "g", "..", ".", "", "JNAME"] if r.random() < .6 else ["a", "b", "f"])
                       for _ in range(r.randrange(1, 5)))
        if rel.startswith("/"):
            rel = rel.strip("/")
        if k < .62:
            return ("../" * r.choice([0, 0, 0, 1, 2])) + rel + r.choice(["", "", "", "/", "/."])
        if k < .84:
            return "TMP/JNAME" + r.choice(["", "/" + rel, "/" + rel, "/../JNAME/" + rel, "/a/../" + rel, "//" + rel, "/./" + rel])
        return r.choice(["TMP/out/x", "TMP/out/keep", "TMP/JNAMEx", "TMP/JNAMEx/f", "TMP/JNAME/../out/x", "TMP/JNAME/../../x",
                         "TMP", "TMP/x", "TMP/out", "/nonexistent-jail/x", "TMP/JNAME/../JNAMEx/f", "/", "TMP/JNAME/..", "/a",
                         "", ".", "..", "TMP/JNAME/../" + rel, "/..", "/../a", "/a/../../b", "/../" + rel,
                         "TMP/JNAME" + "/.." * 12 + "/x", "TMP" + "/.." * 14 + "TMP/JNAME/" + rel])

    def jops(self, env, n):
        r = self.r
        for _ in range(n):
            k = r.random()
            if k < env:
                j = r.random()
                if j < .72:
                    self.op(op="jset", k=r.choice(["A", "A", "B", "C", "TMPDIR", "é", "a", "JX_Y"] + ["V%d" % i for i in range(20 if self.mode == "wide" else 0)]),
                            v=r.choice(["", "1", "new", "x=y", " pad ", "é", "old"]))
                elif j < .92:
                    self.op(op="jclear", q="false")
                else:
                    self.op(op="jset", k=r.choice(["", "A=B", "A\0", "=A"]), v="x") if r.random() < .7 else \
                        self.op(op="jset", k="A", v="x\0y")
            elif k < env + (1 - env) * .42:
                self.op(op=r.choice(["jfile", "jfile", "jbin"]), path=self.jpath(), q="true" if r.random() < .15 else "false",
                        text=r.choice(["", "x", "line\nline\n", "é", "y" * r.choice([10, 9000])]))
                if self.ops[-1]["op"] == "jbin":
                    self.ops[-1]["text"] = r.choice(["\uf8ff", "a\uf8ffb\0", "", "\uf8ff" * 3])
            elif k < env + (1 - env) * .72:
                self.op(op="jdir", path=self.jpath(), q="true" if r.random() < .1 else "false")
            elif k < env + (1 - env) * .93:
                self.op(op="jcd", path=self.jpath(), q="true" if r.random() < .1 else "false")
            else:
                self.op(op=r.choice(["jsib", "jlook"]), q="false")

    def jails(self, env):
        r = self.r
        if r.random() < .15:
            self.op(op="viasym")
        for _ in range(r.randrange(4)):
            self.op(op="osenv", k=r.choice(["A", "B", "D", "\uf8ffK", "é", "E_F"]), v=r.choice(["old", "", "\uf8ffv", "é", "a=b"]))
        for _ in range(r.choice([1, 1, 2, 3])):
            self.op(op="jenter", how=r.choice(["try", "try", "expect"]))
            self.jops(env, r.randrange(1, 8) * (4 if self.mode == "many" else 1))
            self.op(op="jleave", end=r.choice(["ok", "ok", "err", "panic"]), msg=r.choice(["boom", "é b", "x: y"]))
            if r.random() < .2:
                self.op(op="osenv", k=r.choice(["A", "B"]), v="later")

    def c15(self):
        self.jails(.65)

    def c16(self):
        self.jails(.06)


    # ---------------------------- values and errors ----------------------
    def c28(self):
        r = self.r
        vs = [self.value(r.choice([0, 1, 2, 3])) for _ in range(r.randrange(3, 8))]
        for _ in range(r.randrange(4, 14)):
            a = r.choice(vs)
            b = json.loads(json.dumps(a if r.random() < .6 else r.choice(vs)))
            if r.random() < .6:
                b = self.mutant(b)
            ks = self.keysof(a)
            k = r.choice(ks) if ks and r.random() < .7 else r.choice(["", "a", "a.b", ".", "a..b", "x."])
            if r.random() < .2:
                k = r.choice([k + ".", k + ".a", "." + k, k.replace(".", "..")])
            self.op(op="val", a=a, b=b, path=k)
            if r.random() < .3:
                self.vde(a)

    def keysof(self, v, pre=""):
        out = []
        if v["k"] == "d":
            for k, x in v["m"].items():
                out += [pre + k] + self.keysof(x, pre + k + ".")
        return out

    def mutant(self, v):
        """The value with one part changed, or spelled in another width."""
        r = self.r
        if v["k"] == "d" and v["m"] and r.random() < .8:
            k = r.choice(list(v["m"]))
            v["m"][k] = self.mutant(v["m"][k])
        elif v["k"] == "d":
            v["m"][r.choice(["a", "zz"])] = self.value(0)
        elif v["k"] == "a" and v["x"] and r.random() < .8:
            i = r.randrange(len(v["x"]))
            v["x"][i] = self.mutant(v["x"][i])
        elif v["k"] == "a":
            v["x"].append(self.value(0))
        elif v["k"] == "n" and r.random() < .8:
            fits = [y for y in INTS if y != v["y"] and v["v"].lstrip("-").isdigit() and self.fits(int(v["v"]), y)]
            if fits:
                v["y"] = r.choice(fits)
        elif v["k"] == "s" and r.random() < .5:
            v["v"] += r.choice([" ", "x", "\u0301"])
        else:
            return self.value(0)
        return v

    @staticmethod
    def fits(n, y):
        bits = 64 if y[1:] == "size" else int(y[1:])
        return 0 <= n < 2 ** bits if y[0] == "u" else -2 ** (bits - 1) <= n < 2 ** (bits - 1)

    def leaf(self):
        r = self.r
        how = r.choice(["msg", "string", "custom", "sercustom", "kind", "missing", "kindmissing", "dup", "len", "isize", "usize",
                        "type", "type", "kindtype", "typeone", "value", "unsup", "unsupkey", "variant", "field"])
        text = r.choice(["x", "a thing", "é", "", "q\"q", "`t`", "a string\twith tab"])
        if how == "len":
            text = text.encode("ascii", "ignore").decode()
        return {"n": "leaf", "how": how, "x": text, "list": r.randrange(4),
                "a": r.choice([["bool", "true"], ["bool", "false"], ["unsigned", "18446744073709551615"], ["signed", "-9"], ["float", "2.5"],
                               ["float", "3.0"], ["char", "'"], ["char", "é"], ["str", r.choice(STRS)], ["bytes", "b0"], ["unit", ""], ["option", ""],
                               ["newtype", ""], ["seq", ""], ["map", ""], ["enum", ""], ["unitvariant", ""], ["newtypevariant", ""],
                               ["tuplevariant", ""], ["structvariant", ""], ["other", "some kind"]]),
                "paths": [r.choice(["a", "a.b", "", ".", "b..c", "x-y", "é", "0"]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]}

    def tree(self, n):
        r = self.r
        if n == 1:
            return self.leaf()
        m = r.randrange(1, n)
        return {"n": "chain", "l": self.tree(m), "r": self.tree(n - m), "path": r.choice(["", "", "", "k", "k.l", "."])}

    def p_tree(self):
        p = self.p_err()
        p["tree"] = self.tree(self.r.choice([1, 2, 3, 5]))
        del p["msgs"]
        return p

    def c29(self):
        r = self.r
        for _ in range(r.randrange(1, 5)):
            self.op(op="err", tree=self.tree(r.choice([1, 1, 2, 3, 4, 6, 9])))
        if r.random() < .6:
            h = self.frm(self.p_tree() if r.random() < .7 else self.p_map())
            for _ in range(r.randrange(3)):
                h = self.prov(h, self.p_tree() if r.random() < .5 else self.p_map(), r.choice(ORDS))
            self.op(op="errdisp", h=h)


ENVVALS = ["1", "true", "abc", "[1,2.5]", "{x=1,y=[2]}", "\"q\"", "", " pad ", "é", "-5", "1.5", "{a={b=c}}", "'c'", "x,y", "[a",
           "\uf8ff", "a\uf8ff\uf8ffb", "[\uf8ff, 1]", " \uf8ff"]      # U+F8FF stands for a byte that is not UTF-8

VIEWS = {
    "C01": "st datav mergedv extv",
    "C02": "st mergedv extv profs nprofs prof q.st q.findv q.contains",
    "C03": "st data merged ext q.st q.md q.find q.tagged q.again mds metas",
    "C04": "st errkinds errpaths errattrs count merged ext q.st q.findkinds q.findpaths q.findattrs q.contains q.innerst "
           "q.innerkinds q.innerpaths q.innerattrs q.lossy q.tagged x.st x.kinds x.paths x.attrs ed.kinds ed.paths ed.attrs",
    "C05": "x.st x.kinds x.paths x.attrs vde.st vde.kinds vde.paths",
    "C06": "q.st q.find q.contains q.md q.innerst q.inner q.lossy q.tagged q.vref q.vfind q.findkinds q.findpaths "
           "q.innerkinds q.innerpaths ext merged",
    "C07": "st prof rawprof profs nprofs mds data merged errkinds errpaths errattrs q.st q.find q.contains q.md q.inner q.innerkinds",
    "C08": "vde.st vde.r ser.v ser.again ser.back ser.same badmap.st badmap.v badmap.kinds x.st x.r q.findv q.innerv st errkinds",
    "C09": "x.st x.r x.kinds x.paths lossy.b lossy.n lossy.u lossy.i lossy.f lossy.act",
    "C10": "parse",
    "C11": "env.data env.iter env.len env.name var varor varprof varprofor",
    "C12": "st datav metas errkinds errattrs",
    "C13": "st datav profs nprofs errkinds errattrs metas",
    "C14": "x.st x.r rs.st rs.a rs.b rs.orig rs.rel rs.from rs.fromeq rs.eq rs.teq",
    "C15": "lost outcome envin envafter cwdafter fsafter",
    "C16": "lost res cwdin fsin fsafter",
    "C17": "exclusive isolated sequence outcome clean blocked",
    "C18": "all",
    "C19": "prof rawprof profs nprofs mds st data merged ext q.st q.find q.md errkinds errattrs",
    "C20": "mds data merged metas",
    "C21": "prof rawprof profs nprofs st data merged ext q.st q.findv pe.eq pe.eqstr pe.hash pe.ord pe.custom pe.disp pe.str "
           "pe.starts pe.ser pe.de",
    "C22": "x.disp ed.disp sd.abs sd.rel sd.custom",
    "C23": "x.st x.r x.kinds vde.st vde.r vde.kinds",
    "C24": "diff sd.abs sd.rel sd.custom",
    "C25": "x.st x.r x.kinds vde.st vde.r ser.v ser.back ser.same",
    "C26": "metas mds",
    "C28": "val.str val.istr val.char val.bool val.num val.empty val.dict val.idict val.arr val.iarr val.u32 val.u128 val.i128 "
           "val.ul val.f64 val.act val.find val.findref val.eq val.eqr val.ne val.self val.vec val.slice val.fixed val.map "
           "val.ser val.none vde.st vde.r vde.kinds vde.paths vde.attrs",
    "C29": "err.count err.disp err.same err.items st count errkinds errpaths errattrs ed.disp ed.kinds ed.paths ed.attrs",
    "C27": "nest.v nest.found st datav profs nprofs q.st q.findv errkinds",
}


def sessions(prop, seed, n, tier="quick"):
    g = Sess("%s/%s" % (prop, seed), tier)
    for _ in range(n):
        g.begin()
        getattr(g, prop.lower())()
        yield g.ops


if __name__ == "__main__":
    import json
    import sys
    for ops in sessions(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])):
        print(json.dumps({"ops": ops}, ensure_ascii=False))
