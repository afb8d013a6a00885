"""Common machinery of the checks: run cases against the real code, collect the
event log / files / sanitizer reports, hand each observation to the property's
monitor, keep three-valued verdicts, match known findings, write evidence.
"""
import importlib
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
REPLAYS = os.path.join(VERIF, "replays")
NCPU = os.cpu_count() or 4

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=0:"
                    "malloc_fill_byte=190:max_malloc_fill_size=1048576:free_fill_byte=219:max_free_fill_size=1048576:"
                    "detect_stack_use_after_return=1:handle_abort=1:print_summary=1:color=never:hard_rss_limit_mb=3000",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:color=never:detect_deadlocks=0:report_signal_unsafe=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66:color=never",
}


def base_env(extra=None):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"}
    env.update(SAN_ENV)
    if extra:
        env.update(extra)
    return env


# --- text protocol ---------------------------------------------------------

def esc(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    r = re.sub(rb"[\x00-\x20%\x7f-\xff]", lambda m: b"%%%02x" % m.group()[0], s)
    return r.decode("ascii") or "%"


def unesc(s):
    if s == "%":
        return ""
    return re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


def hx(d):
    return float(d).hex()


def fh(s):
    if s in ("nan", "-nan"):
        return float("nan")
    if s in ("inf", "-inf"):
        return float(s)
    return float.fromhex(s)


def mat(m, cols=None):
    c = cols if cols is not None else (len(m[0]) if m else 0)
    return "%d %d %s" % (len(m), c, " ".join(hx(x) for r in m for x in r))


def rag(m):
    return "%d %s" % (len(m), " ".join("%d %s" % (len(r), " ".join(hx(x) for x in r)) for r in m))


def vec(v):
    return "%d %s" % (len(v), " ".join(str(int(x)) for x in v))


def dvec(v):
    return "%d %s" % (len(v), " ".join(hx(x) for x in v))


def conf(c):
    return "%d %s" % (len(c), " ".join(esc(k) + " " + esc(str(v)) for k, v in sorted(c.items())))


# --- sanitizer report digest -------------------------------------------------

SKIPFRAME = re.compile(r"^(__|std::|_start|operator |void std::|main$|abort|raise|gsignal|pthread|decltype|bool std::|double std::)")


def crash_key(rc, err):
    """kind + first frame in project code, without addresses or line numbers."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    elif "WARNING: ThreadSanitizer: " in err:
        kind = "tsan:" + re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err).group(1).strip()
    else:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(1))[:60]
        elif "Error: attempt to" in err:
            m = re.search(r"Error: attempt to ([^\n.]*)", err)
            kind = "glibcxx-debug:" + (m.group(1)[:60] if m else "")
        elif "Assertion" in err:
            kind = "assert"
        elif re.search(r"^==\d+== ", err, re.M):
            m = re.search(r"^==\d+== (?!\s)(\S.*)$", err, re.M)
            kind = "memcheck:" + re.sub(r"\d+", "N", m.group(1) if m else "")[:60]
        elif "terminate called" in err:
            m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
            kind = "exception:" + (m.group(1) if m else "?")
        elif "hard rss limit exhausted" in err:
            kind = "memory-limit"
        else:
            kind = "exit:%s" % rc
    site = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?)(?: (/[^\n]*)| \(|\n)", err):
        fn = m.group(1)
        path = m.group(2) or ""
        name = fn.split("(")[0]
        if "/repo/" in path or (B.REPO + "/") in path:
            site = name
            break
    if site == "?" and kind.startswith("tsan"):
        for m in re.finditer(r"#\d+ (.+?) (/[^\n]*)", err):
            if "/repo/" in m.group(2) or (B.REPO + "/") in m.group(2):
                site = m.group(1).split("(")[0]
                break
    if site == "?" and kind.startswith("memcheck"):
        # frames of this program: "   at 0x..: name(args) (file.cpp:12)"
        files = set(os.path.basename(x) for d in B.DIRS + ["LHFmain"] for x in os.listdir(os.path.join(B.REPO, d)))
        for m in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (.+?)(?:\(.*)? \(([\w.]+):\d+\)", err):
            if m.group(2) in files:
                site = m.group(1)
                break
    return kind + "@" + site


# --- running -----------------------------------------------------------------

class Obs:
    """What one case did."""
    __slots__ = ("status", "rc", "events", "stdout", "stderr", "files", "key", "subs")

    def __init__(self):
        self.status = "ok"      # ok | crash | hang
        self.rc = 0
        self.events = []
        self.stdout = ""
        self.stderr = ""
        self.files = {}
        self.key = ""
        self.subs = []

    def get(self, tag):
        p = tag + " "
        return [e[len(p):] for e in self.events if e.startswith(p)] + [""] * sum(1 for e in self.events if e == tag)

    def one(self, tag):
        r = self.get(tag)
        return r[0] if r else None

    def matrix(self, tag):
        p = tag + " "
        rows = []
        for e in self.events:
            if e == tag or e.startswith(p):
                rows.append([fh(x) for x in e[len(p):].split()])
        return rows

    def brief(self):
        return {"status": self.status, "rc": self.rc, "key": self.key, "events": self.events[:400],
                "stdout": self.stdout[-3000:], "stderr": self.stderr[-5000:],
                "files": {k: v and v[:4000] for k, v in self.files.items()},
                "runs": [x.brief() for x in self.subs]}


class Case:
    """kind 'probe': line = command + arguments; kind 'cli': argv for the executable
    ('{d}' is replaced by the scratch directory), files to create beforehand."""
    __slots__ = ("id", "kind", "line", "argv", "files", "mkdirs", "meta", "collect", "flavour", "env", "timeout", "wrap", "runs")

    def __init__(self, id, kind, line=None, argv=None, files=None, mkdirs=(), meta=None, collect=(), flavour="asan", env=None, timeout=0, wrap=None, runs=None):
        self.id = id; self.kind = kind; self.line = line; self.argv = argv; self.files = files or {}
        self.mkdirs = mkdirs; self.meta = meta or {}; self.collect = collect; self.flavour = flavour
        self.env = env; self.timeout = timeout; self.wrap = wrap
        self.runs = runs      # kind 'multi': list of cli cases, observed as o.subs

    def dump(self):
        d = {k: getattr(self, k) for k in ("id", "kind", "line", "argv", "files", "mkdirs", "meta", "collect", "flavour", "env", "timeout", "wrap")}
        if self.runs is not None:
            d["runs"] = [r.dump() for r in self.runs]
        return d

    @staticmethod
    def load(d):
        if d.get("runs"):
            d = dict(d, runs=[Case.load(r) for r in d["runs"]])
        return Case(**d)


# Limits of one process of the code under test, far above what any case needs:
# a changed program may loop, allocate or write without end.
CPU_S = int(os.environ.get("LHFV_CPU", "100"))
RSS_MB = 3000
FILE_MB = 1024


def _cpu():
    return CPU_S * (5 if _G.get("tier") == "thorough" else 1)


def _limits(cpu, plain):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (FILE_MB << 20, FILE_MB << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if plain:
            resource.setrlimit(resource.RLIMIT_AS, (2 * RSS_MB << 20, 2 * RSS_MB << 20))
    return f


def _sub(cmd, cwd, env, cpu, stdout=None, plain=False):
    """Runs to the end or to the limit of CPU time (independent of other load);
    the limit of real time only catches a process that waits for something."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        t0 = _children()
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else fo, stderr=fe,
                               timeout=120 + 2 * cpu, preexec_fn=_limits(cpu, plain))
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
        if p.returncode and _children() - t0 >= cpu - 1:
            return "timeout", "", ""
        out = []
        for f in (fo, fe):
            f.seek(0)
            out.append(f.read(64 << 20).decode("utf-8", "replace"))
        return p.returncode, out[0], out[1]


def _children():
    u = resource.getrusage(resource.RUSAGE_CHILDREN)
    return u.ru_utime + u.ru_stime


class HarnessError(Exception):
    pass


def run_probe_batch(exe, cases, scratch, env=None, wrap=None):
    """Runs probe cases (all of one flavour) in as few processes as possible."""
    res = {}
    todo = list(cases)
    n = 0
    while todo:
        n += 1
        cf = os.path.join(scratch, "cases%d" % n)
        ef = os.path.join(scratch, "events%d" % n)
        with open(cf, "w") as f:
            for c in todo:
                f.write("%s %s\n" % (c.id, c.line.replace("{d}", esc(scratch))))
        rc, so, se = _sub((wrap or []) + [exe, cf, ef], scratch, base_env(env), max(_cpu(), max(c.timeout for c in todo)), stdout=subprocess.DEVNULL, plain="/plain" in exe and not wrap)
        if "PROBE-PROTOCOL" in se or rc in (97, 98):
            raise HarnessError("probe: " + se[:300])
        cur = None
        done = set()
        if os.path.exists(ef):
            with open(ef, errors="replace") as f:
                for line in f:
                    line = line.rstrip("\n")
                    if line.startswith("begin "):
                        cur = line[6:]
                        res[cur] = Obs()
                    elif line.startswith("end ") and line[4:] == cur:
                        done.add(cur)
                        cur = None
                    elif cur is not None:
                        res[cur].events.append(line)
        os.unlink(cf)
        if os.path.exists(ef):
            os.unlink(ef)
        if rc == 0 and cur is None and len(done) == len(todo):
            break
        if rc == "timeout":
            if cur is None:
                raise HarnessError("probe timed out outside a case")
            if len(todo) > 1 and res[cur].rc != "slow":
                # give the suspect a run of its own before calling it a hang
                k = [i for i, c in enumerate(todo) if c.id == cur][0]
                alone = run_probe_batch(exe, [todo[k]], scratch, env, wrap)
                res[cur] = alone[cur]
                todo = todo[k + 1:]
                if _stop():
                    break
                continue
            o = res[cur]
            o.status = "hang"; o.rc = rc; o.key = "hang"
            _ended(o)
        else:
            if cur is None:
                # died between cases: at exit or before the first case
                if rc == 0:
                    raise HarnessError("probe lost cases")
                last = todo[len(done) - 1] if done else todo[0]
                cur = last.id
                res.setdefault(cur, Obs())
            o = res[cur]
            o.status = "crash"; o.rc = rc; o.stderr = se; o.key = crash_key(rc, se)
            _ended(o)
        k = [i for i, c in enumerate(todo) if c.id == cur][0]
        todo = todo[k + 1:]
        if _stop():
            break       # the caller counts what is missing as skipped
    return res


def run_cli(exe, c, scratch):
    d = os.path.join(scratch, "cli")
    os.makedirs(d)
    try:
        for m in c.mkdirs:
            os.makedirs(os.path.join(d, m), exist_ok=True)
        for name, content in c.files.items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(content.encode("utf-8", "surrogateescape") if isinstance(content, str) else content)
        argv = [a.replace("{d}", d) for a in c.argv]
        cmd = (c.wrap or []) + [exe] + argv
        rc, so, se = _sub([x.replace("{d}", d) for x in cmd], d, base_env(c.env), max(c.timeout, _cpu()), plain="/plain" in exe and not c.wrap)
        o = Obs()
        o.rc = rc; o.stdout = so; o.stderr = se
        if rc == "timeout":
            o.status = "hang"; o.key = "hang"
        elif rc != 0:
            o.status = "crash"; o.key = crash_key(rc, se)
        _ended(o)
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, d)
                with open(p, "rb") as fh_:
                    t = fh_.read()
                # of the files that were there before, only those that changed
                if rel in c.files:
                    x = c.files[rel]
                    if t == (x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x):
                        continue
                o.files[rel] = t.decode("utf-8", "surrogateescape")
        for rel in c.files:
            if not os.path.exists(os.path.join(d, rel)):
                o.files[rel] = None      # removed
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


_G = {}
_DEADLINE = multiprocessing.get_context("fork").Value("d", 0.0)
AFTER_CRASH_S = 60


def _ended(o):
    """A confirmed hang is a violation; others like it would only cost the
    time the check has, so cases that have not started by then are skipped.
    After a crash the check goes on for a while (there may be several kinds),
    but not for long: each may take its time (memory filled up to the limit)."""
    if o.status in ("hang", "crash"):
        t = time.time() + (AFTER_CRASH_S if o.status == "crash" else 0)
        with _DEADLINE.get_lock():
            _DEADLINE.value = min(_DEADLINE.value, t)


def _stop():
    return time.time() > _DEADLINE.value


def _work(args):
    """Worker: run a chunk of cases, judge each. Returns list of results."""
    prop, chunk = args
    mod = _G["mod"]
    exes = _G["exes"]
    scratch = tempfile.mkdtemp(prefix="lhfv-")
    out = []
    skip = set()
    try:
        obs = {}
        byfl = {}
        for c in chunk:
            if _stop():
                skip.add(c.id)
                continue
            if c.kind == "probe":
                for name, content in c.files.items():
                    with open(os.path.join(scratch, name), "wb") as f:
                        f.write(content.encode("utf-8", "surrogateescape") if isinstance(content, str) else content)
                for m in c.mkdirs:
                    os.makedirs(os.path.join(scratch, m), exist_ok=True)
                byfl.setdefault((c.flavour, json.dumps([c.env, c.wrap], sort_keys=True)), []).append(c)
            elif c.kind == "multi":
                o = obs[c.id] = Obs()
                for r in c.runs:
                    x = run_cli(exes[r.flavour]["LHF"], r, scratch)
                    o.subs.append(x)
                    if x.status != "ok" and o.status == "ok":
                        o.status, o.rc, o.key, o.stderr = x.status, x.rc, x.key, x.stderr
                    if x.status == "hang" or _stop():
                        break
                if o.status != "ok":
                    # the verdict is known already
                    o.subs += [next(y for y in o.subs if y.status != "ok")] * (len(c.runs) - len(o.subs))
                if len(o.subs) < len(c.runs):
                    del obs[c.id]
                    skip.add(c.id)
            else:
                obs[c.id] = run_cli(exes[c.flavour]["LHF"], c, scratch)
        for (fl, env), cs in byfl.items():
            if _stop():
                skip.update(c.id for c in cs)
                continue
            r = run_probe_batch(exes[fl]["probe"], cs, scratch, *json.loads(env))
            obs.update(r)
            if _stop():
                skip.update(c.id for c in cs if c.id not in r)
        for c in chunk:
            if c.id in skip:
                out.append((c, None, None))
                continue
            o = obs.get(c.id)
            if o is None:
                raise HarnessError("no observation for case " + c.id)
            try:
                r = mod.judge(c, o)
            except Exception:
                if o.status != "ok":
                    r = Verdict([(o.key, "the run ended with " + o.key)])
                else:
                    r = Verdict([("malformed:" + traceback.format_exc().strip().split("\n")[-1][:80],
                                  "output could not be interpreted: " + traceback.format_exc()[-600:])])
            out.append((c, o if r.violations else None, r))
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Verdict:
    """violations: list of (key, text). sig: what distinct thing was observed
    (None: trivial). evals: how many oracle decisions. inconclusive: text."""
    __slots__ = ("violations", "sig", "evals", "inconclusive", "events")

    def __init__(self, violations=(), sig=None, evals=1, inconclusive=None, events=0):
        self.violations = list(violations); self.sig = sig; self.evals = evals
        self.inconclusive = inconclusive; self.events = events


def load_known(prop):
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                r[d["key"]] = d["what"]
    return r


def load_prop(prop):
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(line)
        if d["id"] == prop:
            return d
    raise SystemExit("unknown property " + prop)


def run_check(prop, tier, seed, replay=None, ncases=None):
    t0 = time.time()
    mod = importlib.import_module("checks." + prop)
    rng = random.Random("%s/%s/%s" % (prop, seed, tier))
    flavours = getattr(mod, "FLAVOURS", ["asan"])
    if callable(flavours):
        flavours = flavours(tier)
    targets = getattr(mod, "TARGETS", ("probe", "LHF"))
    try:
        exes = {fl: B.build(fl, targets) for fl in flavours}
    except B.BuildError as e:
        print("INCONCLUSIVE: the tree does not build with the monitors' flags\n" + str(e))
        return 2
    _G["mod"] = mod
    _G["tier"] = tier
    _G["exes"] = exes
    if replay:
        d = json.load(open(replay))
        cases = [Case.load(d["case"])]
    else:
        cases = list(mod.gen(rng, tier))
        ids = set()
        for c in cases:
            assert c.id not in ids and " " not in c.id, c.id
            ids.add(c.id)
    known = load_known(prop)
    size = getattr(mod, "CHUNK", 12)
    # interleave so that chunks have similar cost
    heavy = [[c] for c in cases if c.meta.get("heavy")]     # long ones first, each on its own
    light = [c for c in cases if not c.meta.get("heavy")]
    nch = (len(light) + size - 1) // size
    chunks = heavy + [light[i::nch] for i in range(nch)]
    nch = max(1, len(chunks))
    viol, knownhit, sigs, incon, samples = [], {}, {}, [], []
    evals = events = skipped = 0
    _DEADLINE.value = t0 + float(os.environ.get("LHFV_BUDGET", "600" if tier == "quick" else "14400"))
    with multiprocessing.get_context("fork").Pool(min(NCPU, nch)) as pool:
        for res in pool.imap_unordered(_work, [(prop, ch) for ch in chunks]):
            for c, o, r in res:
                if r is None:
                    skipped += 1
                    continue
                evals += r.evals
                events += r.events
                if r.sig is not None:
                    sigs[r.sig] = sigs.get(r.sig, 0) + 1
                    if len(samples) < 6:
                        samples.append({"case": c.id, "input": (c.line or " ".join(c.argv or c.runs[0].argv))[:300], "observed": str(r.sig)[:200]})
                if r.inconclusive:
                    incon.append((c.id, r.inconclusive))
                for key, text in r.violations:
                    if key in known:
                        knownhit.setdefault(key, []).append(c.id)
                    else:
                        viol.append((key, text, c, o))
    # cross-case judgement (determinism etc.) is done inside judge by using repeated runs
    minsig = getattr(mod, "MIN_DISTINCT", 2)
    rc = 0
    for key, what in known.items():
        if key in knownhit or getattr(mod, "ANNOUNCE_ALL_KNOWN", True):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    lines = []
    if viol:
        rc = 1
        os.makedirs(REPLAYS, exist_ok=True)
        seen = set()
        viol.sort(key=lambda v: (v[0], v[2].id))
        for key, text, c, o in viol:
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(REPLAYS, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60]))
            with open(path, "w") as f:
                json.dump({"property": prop, "key": key, "what": text, "seed": seed, "tier": tier,
                           "case": c.dump(), "observed": o.brief() if o else None}, f, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] case %s: %s" % (key, c.id, text[:700]))
            if len(seen) >= 8:
                break
    elif not replay:
        if len(sigs) < minsig:
            print("INCONCLUSIVE: only %d distinct non-trivial observations (want %d)" % (len(sigs), minsig))
            rc = 2
        elif len(incon) * 2 > len(cases):
            print("INCONCLUSIVE: %d of %d cases gave no verdict" % (len(incon), len(cases)))
            rc = 2
    wall = time.time() - t0
    if not replay:
        level = getattr(mod, "LEVEL", "exploration")
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": level,
            "coverage": {"evaluations": len(cases) - skipped, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                         "samples": samples, "oracle_decisions": evals, "events_observed": events,
                         "cases_skipped_for_time": skipped, "inconclusive_cases": len(incon), "inconclusive_reasons": sorted(set(x for _, x in incon))[:5],
                         "known_findings_hit": {k: len(v) for k, v in knownhit.items()}},
            "assumptions": getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%s: %d cases, %d oracle decisions, %d distinct observations, %d events, %d inconclusive, %d violations, %.1fs%s"
          % (prop, tier, seed, len(cases), evals, len(sigs), events, len(incon), len(viol), wall, ", %d cases skipped" % skipped if skipped else ""))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


BASE_ASSUMPTIONS = ["g++ 13 and glibc execute the instrumented build as they would the shipped one",
                    "held on the executions observed; nothing is claimed for inputs outside the generator's ranges"]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int.from_bytes(str(a.seed).encode(), "big") % (1 << 31)
    try:
        return run_check(a.property, a.tier, seed, a.replay)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 3
