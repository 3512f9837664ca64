"""Decides one property: `check.py C01 quick`, `check.py --replay FILE`.

Exit status: 0 held on everything explored, 1 violated, 2 no answer."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback

import figcheck as fc
import gen
import sess
from plan import PLAN

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def fill(x, r):
    """Completes a session the model wrote: empty objects, texts of documents."""
    if isinstance(x, list):
        return [fill(y, r) for y in x]
    if not isinstance(x, dict):
        return x
    y = {k: {} if k in ("m", "data") and v == [] else fill(v, r) for k, v in x.items()}
    if "doc" in y and y.get("text") == "" and y.get("bad") == "false":
        y["text"] = gen.emit(y["fmt"], y["doc"], r)
        if y.get("op") == "wfile":
            y["text"] = gen.infile(y["text"])
    elif "doc" in y and y.get("bad") == "true" and y.get("text") == "":
        y["text"] = r.choice(gen.MALFORMED[y["fmt"]])
    return y


def corpus(prop):
    d = os.path.join(fc.HERE, "corpus")
    out = []
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if n.startswith(prop + ".") and n.endswith(".ndjson"):
            with open(os.path.join(d, n), encoding="utf-8") as f:
                out += [json.loads(x) for x in f if x.strip()]
    return out


def batches(ss, most=120000):
    """Parts of so many operations."""
    part, n = [], 0
    for s in ss:
        part.append(s)
        n += len(s)
        if n >= most:
            yield part
            part, n = [], 0
    if part:
        yield part


def describe(f, ops):
    if f["what"] == "crash":
        return "the code did not survive the session: %s" % f["how"]
    if f["what"] == "unexplained":
        return "outcome outside of the specification: %s" % f["how"]
    op = ops[f["step"] - 1] if f["step"] <= len(ops) else {}
    return "operation %d (%s): %s: expected %s observed %s" % (
        f["step"], op.get("op"), f["what"], json.dumps(f["expected"], ensure_ascii=False)[:700],
        json.dumps(f["observed"], ensure_ascii=False)[:700])


def replays():
    d = os.path.join(fc.HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return d


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.plan = prop, tier, PLAN[prop]
        self.eng = self.plan.get("engine", fc.FIG)
        self.view = sess.VIEWS.get(prop, "").split()
        self.cov = {"states": 0, "transitions": 0, "traces": 0}
        self.parts, self.samples = [], []
        self.violations = []
        self.budget = 60 if tier == "quick" else 660

    def left(self):
        return self.budget - (time.time() - fc.T0)

    def note(self, what, **kw):
        self.parts.append(dict(what=what, **kw))
        fc.say(what, json.dumps(kw))

    def add(self, st):
        for k in st:
            self.cov[k] += st[k]

    # --------------------------- sessions ---------------------------
    def run(self, name, sessions, view=None):
        """Conformance of a batch; records confirmed violations."""
        view = view or self.view
        if not sessions:
            return
        fails, st = fc.conform(sessions, view, eng=self.eng)
        self.samples.append({"of": name, "session": sessions[len(sessions) // 2][:40]})
        self.samples = self.samples[:8]
        self.add(st)
        self.note(name, sessions=len(sessions), steps=st["transitions"], failures=len(fails))
        seen = set()
        for f in sorted(fails, key=lambda f: len(json.dumps(sessions[f["session"]]))):
            if f["what"] in seen or len(self.violations) >= 3:
                continue
            seen.add(f["what"])
            self.violation(sessions, view, f)

    def violation(self, sessions, view, first):
        ops = sessions[first["session"]]
        threads = self.eng in (fc.LOCKS, fc.TAGS)
        again = fc.confirm(ops, view, self.eng)
        if not again and threads:
            # What threads did once they need not do again; what was recorded
            # is wrong whatever the timing. Only a crash or hang has to repeat.
            for _ in range(10):
                again = again or fc.confirm(ops, view, self.eng)
            if first["what"] != "crash":
                again = again or [first]
        rec = {"property": self.prop, "view": view, "mode": self.eng.mode}
        if again and threads:
            final = again[0]
            rec["ops"] = ops
        elif again:
            rec["ops"] = ops = fc.shrink(ops, view, again[0]["what"], eng=self.eng)
            final = (fc.confirm(ops, view, self.eng) or again)[0]
        else:
            # The process's history matters: along with the sessions before it.
            k = first["session"]
            before = sessions[k % fc.SHARDS:k:fc.SHARDS]
            final = self.along(before, ops, view)
            if final is None:
                raise fc.NoAnswer("a failure did not repeat: " + json.dumps(first)[:500])
            n = 1
            while n < len(before):
                f = self.along(before[-n:], ops, view)
                if f is not None:
                    before, final = before[-n:], f
                    break
                n *= 4
            rec["before"], rec["ops"] = before, ops
        rec["failure"] = final
        path = os.path.join(replays(), "%s.%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w", encoding="utf-8") as f:
            json.dump(rec, f, ensure_ascii=False, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + describe(final, ops), flush=True)
        self.violations.append({"replay": path, "what": describe(final, ops)})

    def along(self, before, ops, view):
        fails = fc.conform(before + [ops], view, 1, self.eng)[0]
        return next((f for f in fails if f["session"] == len(before)), None)

    # ---------------------------- stages ----------------------------
    def models(self):
        r = random.Random(7)
        for mod, cfg in self.plan.get("models", {}).get(self.tier, self.plan.get("models", {}).get("quick", [])):
            ss, g, d = fc.model(mod, cfg, self.tier)
            self.cov["states"] += d
            self.cov["transitions"] += g
            self.note("model %s/%s" % (mod, cfg), distinct=d, generated=g, sessions=len(ss))
            ss = [fill(s, r) for s in ss]
            cap = self.plan.get("cap", {}).get(self.tier, 6000 if self.tier == "quick" else 30000)
            if len(ss) > cap:
                ss = random.Random(SEED).sample(ss, cap)
            for part in batches(ss):
                self.run("replay of %s/%s" % (mod, cfg), part)
                if self.violations:
                    return

        for mod, cfg, inv in self.plan.get("broken", []):
            g, d = fc.broken(mod, cfg, inv)
            self.note("%s/%s violates %s, as it must" % (mod, cfg, inv), distinct=d, generated=g)

    def random(self):
        n = self.plan.get("n", 5000)
        if self.tier == "quick":
            self.run("random sessions, seed %d" % SEED, list(sess.sessions(self.prop, SEED, n)))
            return
        k, last = 0, 0.
        while self.left() > last * 1.3 + 15 and not self.violations:
            t = time.time()
            self.run("random sessions, seed %d.%d" % (SEED, k),
                     list(sess.sessions(self.prop, "%d.%d" % (SEED, k), self.plan.get("nt", max(n, 12000)), "thorough")))
            last = time.time() - t
            k += 1

    def go(self):
        fc.build()
        cs = corpus(self.prop)
        self.run("corpus", [c["ops"] for c in cs])
        for stage in self.plan.get("stages", ["models", "random"]):
            if self.violations:
                break
            if isinstance(stage, str):
                getattr(self, stage)()
            else:
                stage(self)
        known = [] if self.violations else self.known()
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))

    def known(self):
        """Findings listed for this property that still show."""
        out = []
        d = os.path.join(fc.HERE, "known")
        for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            with open(os.path.join(d, n), encoding="utf-8") as f:
                k = json.load(f)
            if k["property"] != self.prop:
                continue
            lines, _ = fc.replay([k["ops"]], "known")
            evs = json.loads(lines[0])["ev"] if lines and lines[0] else []
            if all(e["ok"] for e in evs) and all(
                    evs[i]["obs"].get(f) == v for i, f, v in k["shows"]):
                out.append(k["what"])
        return out

    def evidence(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": self.plan["level"],
            "coverage": {"states": self.cov["states"], "transitions": self.cov["transitions"],
                         "traces_validated_against_impl": self.cov["traces"], "samples": self.samples,
                         "parts": self.parts},
            "wall_s": round(time.time() - fc.T0, 1),
            "violations": self.violations,
            "assumptions": self.plan.get("assumptions", []),
        }
        os.makedirs(os.path.join(fc.HERE, "evidence"), exist_ok=True)
        with open(os.path.join(fc.HERE, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)


def replay_file(path):
    with open(path, encoding="utf-8") as f:
        r = json.load(f)
    fc.build()
    before = r.get("before", [])
    fails = fc.conform(before + [r["ops"]], r["view"], 1, fc.ENGINES[r["mode"]])[0]
    fails = [f for f in fails if f["session"] == len(before)]
    for f in fails:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("  " + describe(f, r["ops"]))
    return 1 if fails else 0


def main(argv):
    fc.scratch()
    try:
        if argv[:1] == ["--replay"]:
            return replay_file(argv[1])
        c = Check(argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
        c.go()
        c.evidence()
        fc.say("%s %s: %s" % (c.prop, c.tier, "violated" if c.violations else "held"), json.dumps(c.cov))
        return 1 if c.violations else 0
    except fc.NoAnswer as e:
        print("NO ANSWER:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: timeout", str(e)[:300])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(fc.SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
