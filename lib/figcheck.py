"""Runs one property's check: model checking of the specification, sessions
(from the model, from a corpus and random) replayed in the real code, and the
recorded sessions checked against the specification by TLC."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
BIN = os.path.join(BUILD, "debug", "figconf")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class NoAnswer(Exception):
    pass


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_TERM_COLOR="never")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        raise NoAnswer("the harness does not build against /repo")
    say("harness built")


# ---------------------------------- TLC -----------------------------------
def tlc_cmd(module, cfg, meta, workers, heap, extra=()):
    return ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers),
            "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
            "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *extra, module]


STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


def tlc(module, cfg, env=None, workers=8, heap="8g", timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=SCRATCH)
    p = subprocess.run(tlc_cmd(module, cfg, meta, workers, heap, extra), cwd=SPEC, env=dict(os.environ, **(env or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding="utf-8", errors="replace",
                       timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = STATES.findall(p.stdout)
    gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return p.returncode, p.stdout, gen, dis


def tla_string(line):
    """A string as TLC prints it, as the string it is."""
    out, i, s = [], 1, line.strip()
    while i < len(s) - 1:
        c = s[i]
        if c == "\\":
            i += 1
            c = {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[i], s[i])
        out.append(c)
        i += 1
    return "".join(out)


def printed(out, prefix):
    for line in out.split("\n"):
        if line.startswith('"' + prefix):
            yield tla_string(line)[len(prefix):]


def broken(module, cfg, inv):
    """The model with a fault built in: TLC has to find it."""
    rc, out, gen, dis = tlc(module + ".tla", cfg + ".cfg", {"TIER": "quick"})
    if "Invariant %s is violated" % inv not in out:
        print(out[-3000:])
        raise NoAnswer("the invariant %s of %s does not notice %s" % (inv, module, cfg))
    return gen, dis


def model(module, cfg, tier, workers=8):
    """Model-checks; returns (sessions printed, generated, distinct)."""
    rc, out, gen, dis = tlc(module + ".tla", cfg + ".cfg", {"TIER": tier}, workers)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        print(re.sub(r'^"(SESSION|ENDED) .*\n', "", out, flags=re.M)[-6000:])
        raise NoAnswer("the specification fails its own check %s/%s" % (module, cfg))
    return [json.loads(s) for s in printed(out, "SESSION ")], gen, dis


# ------------------------------- replaying --------------------------------
# An engine: how sessions are run and which specification explains them.
class Engine:
    def __init__(self, mode="exec", module="Trace", drop=False, env=None, steps=None):
        self.mode, self.module, self.drop, self.env = mode, module, drop, env or {}
        self.steps = steps or (lambda line: line.count('"ok":true'))


FIG = Engine()
JAIL = Engine("jail", "JailTrace", drop=True, steps=lambda line: len(json.loads(line)["ops"]))
LOCKS = Engine("jailthreads", "JailLockTrace", drop=True, steps=lambda line: len(json.loads(line)["ev"]))
TAGS = Engine("tags", "TagsTrace", steps=lambda line: len(json.loads(line)["ev"]))
ENGINES = {e.mode: e for e in (FIG, JAIL, LOCKS, TAGS)}
NOBODY = 65534


def unprivileged_bin():
    """A copy of the harness that an unprivileged user can run."""
    d = os.path.join(SCRATCH, "bin")
    b = os.path.join(d, "figconf")
    if not os.path.exists(b):
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mktemp(dir=d)
        shutil.copy(BIN, tmp)
        os.chmod(tmp, 0o755)
        os.chmod(d, 0o755)
        os.chmod(SCRATCH, 0o711)
        os.rename(tmp, b)
    return b


STALL = 40      # seconds without getting on to the next session


def run_harness(args, timeout, drop=False):
    """Exit status, or None when it had to be stopped."""
    cur = os.path.join(args[-1], "current")
    kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop and os.geteuid() == 0 else {}
    exe = unprivileged_bin() if drop else BIN
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd="/", **kw)
    end, seen, since = time.time() + timeout, None, time.time()
    while True:
        try:
            out, _ = p.communicate(timeout=2)
            return p.returncode, out.decode(errors="replace")
        except subprocess.TimeoutExpired:
            at = open(cur).read() if os.path.exists(cur) else ""
            if at != seen:
                seen, since = at, time.time()
            if time.time() > end or time.time() - since > STALL:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                return None, out.decode(errors="replace")


def replay(sessions, tag, timeout=None, eng=FIG):
    """Executes sessions. Returns (recorded lines, crashes), a crash being
    (index of the session, how it ended)."""
    lines, crashes = [], []
    start = 0
    while start < len(sessions):
        inp = os.path.join(SCRATCH, "in.%s" % tag)
        scr = tempfile.mkdtemp(prefix="run.%s." % tag, dir=SCRATCH)
        outp = os.path.join(SCRATCH, "out.%s" % tag)
        if eng.drop:
            outp = os.path.join(scr, "out")
            os.chown(scr, NOBODY, NOBODY)
        with open(inp, "w", encoding="utf-8") as f:
            for s in sessions[start:]:
                f.write(json.dumps({"ops": s}, ensure_ascii=False) + "\n")
        rc, text = run_harness([eng.mode, inp, outp, scr], timeout or 60 + len(sessions) * .05, eng.drop)
        got = []
        if os.path.exists(outp):
            with open(outp, encoding="utf-8") as f:
                got = [x for x in f.read().split("\n") if x]
        cur = os.path.join(scr, "current")
        at = open(cur).read() if os.path.exists(cur) else "?"
        shutil.rmtree(scr, ignore_errors=True)
        os.remove(inp)
        if os.path.exists(outp):
            os.remove(outp)
        if rc == 0 and at == "done":
            lines += got
            break
        if rc in (2, 3) or (rc == 101 and eng in (FIG, JAIL)) or not at.isdigit():
            print(text[-3000:])
            raise NoAnswer("the harness failed (%s) at session %s" % (rc, at))
        n = int(at)
        lines += got[:n]
        lines.append(None)
        crashes.append((start + n, "did not finish" if rc is None else "ended by signal or abort (%s): %s" % (rc, text[-300:])))
        start += n + 1
        if len(crashes) > 20 or sum(c[1] == "did not finish" for c in crashes) > 2:
            lines += [None] * (len(sessions) - start)
            break
    return lines, crashes


def validate(lines, view, tag, workers=2, eng=FIG):
    """Checks recorded sessions (None: nothing recorded) against the
    specification. Returns (mismatches, generated, distinct, unexplained)."""
    keep = [i for i, x in enumerate(lines) if x is not None]
    mism, gen, dis, odd = [], 0, 0, []
    while keep:
        trace = os.path.join(SCRATCH, "trace.%s.ndjson" % tag)
        with open(trace, "w", encoding="utf-8") as f:
            for i in keep:
                f.write(lines[i] + "\n")
        rc, out, g, d = tlc(eng.module + ".tla", eng.module + ".cfg", {"TRACE": trace, "VIEW": ",".join(view)}, workers, "3g")
        os.remove(trace)
        gen, dis = gen + g, dis + d
        ms = [json.loads(x) for x in printed(out, "MISMATCH ")]
        if rc == 0 and "Model checking completed. No error has been found." in out:
            if not ms and d != sum(1 + eng.steps(lines[i]) for i in keep):
                raise NoAnswer("not every recorded step was checked")
            for m in ms:
                m["session"] = keep[m["sid"] - 1]
                mism.append(m)
            return mism, gen, dis, odd
        # An evaluation error: the specification cannot explain an outcome.
        at = re.findall(r"^/\\ sid = (\d+)", out, re.M)
        if not at:
            print(out[-4000:])
            raise NoAnswer("TLC failed")
        n = int(at[-1]) - 1
        odd.append((keep[n], re.sub(r"\s+", " ", out[out.find("Error:"):][:600])))
        for m in ms:
            if m["sid"] - 1 != n:
                m["session"] = keep[m["sid"] - 1]
        del keep[n]
        if len(odd) > 5:
            break
    return mism, gen, dis, odd


SHARDS = 4


def conform(sessions, view, shards=SHARDS, eng=FIG):
    """Replays and validates; returns (failures, stats)."""
    # Interleave, so that shards are alike.
    parts = [list(range(k, len(sessions), shards)) for k in range(min(shards, len(sessions)))]

    def one(k):
        idx = parts[k]
        lines, crashes = replay([sessions[i] for i in idx], str(k), eng=eng)
        ms, g, d, odd = validate(lines, view, str(k), eng=eng)
        steps = sum(eng.steps(x) for x in lines if x)
        fails = [{"session": idx[i], "what": "crash", "how": how} for i, how in crashes]
        fails += [{"session": idx[m["session"]], "what": m["comp"], "step": m["l"], "expected": m["exp"], "observed": m["got"]}
                  for m in ms]
        fails += [{"session": idx[i], "what": "unexplained", "how": how} for i, how in odd]
        return fails, g, d, steps, sum(1 for x in lines if x)

    with ThreadPoolExecutor(len(parts) or 1) as ex:
        rs = list(ex.map(one, range(len(parts))))
    fails = [f for r in rs for f in r[0]]
    return fails, {"states": sum(r[2] for r in rs), "transitions": sum(r[3] for r in rs), "traces": sum(r[4] for r in rs)}


def confirm(session, view, eng=FIG):
    """The failures of a single session run by itself."""
    return conform([session], view, 1, eng)[0]


def shrink(session, view, what, budget=25.0, eng=FIG):
    """A shorter session with the same failure, within a time budget."""
    end = time.time() + budget
    best = session
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(best) - 1, -1, -1):
            if time.time() > end:
                break
            op = best[i]
            if op["op"] in ("jenter", "jleave"):
                continue
            if op["op"] in ("new", "default", "from", "prov", "select", "focus"):
                if i != len(best) - 1 and any("h" in o or o.get("p", {}).get("kind") == "fig" for o in best[i + 1:]):
                    continue
            cand = best[:i] + best[i + 1:]
            if not cand:
                continue
            try:
                fs = confirm(cand, view, eng)
            except (NoAnswer, subprocess.TimeoutExpired):
                continue
            if any(f["what"] == what for f in fs):
                best, changed = cand, True
    return best


SCRATCH = None


def scratch():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="figcheck.")
    return SCRATCH
