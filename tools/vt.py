"""Shared machinery of the checks: build harnesses from /repo's working tree, run TLC,
validate recorded traces against the specifications, report verdicts and evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 4)

CXXFLAGS = ["-std=c++17", "-g1", "-DASIO_STANDALONE", "-DFMT_DEPRECATED_OSTREAM", "-DSPDLOG_COMPILED_LIB",
            "-DSPDLOG_FMT_EXTERNAL", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w"]
LIBS = ["-lspdlog", "-lfmt", "-lpthread", "-ldl"]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def build(name, harness_srcs, opt="-O0", extra=(), only=None, cxx="g++", libextra=()):
    """Compiles lib/src of the working tree and the harness sources, and links them.
    only: a predicate on the path relative to lib/src, when not the whole library is needed."""
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "standins"), "-I" + os.path.join(REPO, "lib/include"),
           "-I" + os.path.join(REPO, "lib/src"), "-I" + os.path.join(VERIF, "harness")]
    hdrs = (_tree(os.path.join(REPO, "lib/include"), (".h", ".hpp")) + _tree(os.path.join(REPO, "lib/src"), (".h", ".hpp"))
            + _tree(os.path.join(VERIF, "standins"), (".h",)) + _tree(os.path.join(VERIF, "harness"), (".h", ".hpp")))
    hsha = _sha(*[p + _read(p).decode("utf8", "replace") for p in hdrs])
    srcroot = os.path.join(REPO, "lib/src")
    srcs = [p for p in _tree(srcroot, (".cpp", ".cc")) if only is None or only(os.path.relpath(p, srcroot))]
    srcs += [os.path.join(VERIF, "harness", s) for s in harness_srcs]
    flags = CXXFLAGS + [opt] + list(extra)
    objs, todo = [], []
    for s in srcs:
        fl = flags + (list(libextra) if s.startswith(srcroot) else [])
        o = os.path.join(BUILD, "obj", _sha(cxx, " ".join(fl), hsha, s, _read(s)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o, fl))

    def comp(so):
        s, o, fl = so
        r = subprocess.run([cxx] + fl + inc + ["-c", s, "-o", o + ".tmp%d" % os.getpid()], capture_output=True, text=True)
        if r.returncode:
            return s + ":\n" + r.stderr[:4000]
        os.replace(o + ".tmp%d" % os.getpid(), o)
        return None

    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs:
        raise CheckError("compilation failed\n" + "\n".join(errs[:3]))
    exe = os.path.join(BUILD, name + "-" + _sha(" ".join(objs), " ".join(flags)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([cxx] + flags + objs + ["-o", tmp] + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed\n" + r.stderr[:4000])
        os.replace(tmp, exe)
    log("[build] %s: %d sources, %d compiled, %.1fs" % (name, len(srcs), len(todo), time.time() - t0))
    return exe


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.lost = out.count('"LOST"')
        self.printed = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                # a TLA+ string printed by PrintT
                s = line[3:].rstrip()
                if s.endswith('"'):
                    s = s[:-1]
                self.printed.append(s.replace('\\"', '"').replace("\\\\", "\\"))

    def actions(self):
        """Coverage: action name -> (distinct, taken)"""
        res = {}
        for m in re.finditer(r"^<(\w+) line[^>]*>: (\d+):(\d+)", self.out, re.M):
            a, b = int(m.group(2)), int(m.group(3))
            o = res.get(m.group(1), (0, 0))
            res[m.group(1)] = (max(o[0], a), max(o[1], b))
        return res


def tlc(module, cfg=None, env=None, workers=None, timeout=800, args=(), mem="6g", consts=None):
    """Runs TLC on specs/<module>.tla with specs/<cfg>.cfg; consts override CONSTANT lines."""
    t0 = time.time()
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfgp = os.path.join(SPECS, (cfg or module) + ".cfg")
        if consts:
            text = open(cfgp).read()
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), text)
                if n == 0:
                    raise CheckError("no constant %s in %s" % (k, cfgp))
            cfgp = os.path.join(meta, "model.cfg")
            open(cfgp, "w").write(text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-Djava.io.tmpdir=" + meta, "-cp", TLAJAR, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(meta, "m"), "-noGenerateSpecTE",
               "-config", cfgp] + list(args) + [os.path.join(SPECS, module + ".tla")]
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=SPECS)
        return Tlc(r.returncode, r.stdout + r.stderr, time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model_check(module, cfg=None, expect_actions=(), **kw):
    """Exhaustive check of a design model. Anything but success is an error of the check."""
    r = tlc(module, cfg, args=tuple(kw.pop("args", ())) + ("-deadlock",), **kw)
    if not r.ok:
        raise CheckError("TLC on %s failed (rc %d)\n%s" % (cfg or module, r.rc, r.out[-6000:]))
    if r.generated == 0:
        raise CheckError("TLC on %s explored nothing" % (cfg or module))
    log("[tlc] %s: %d generated, %d distinct, depth %d, %.1fs" % (cfg or module, r.generated, r.distinct, r.depth, r.wall))
    return r


# ---------------------------------------------------------------- harness and traces

def run_harness(exe, scenarios, jobs=None, timeout=300, env=None, args=()):
    """Feeds scenarios (JSON objects, one per line on stdin) to the harness; it answers one JSON object per
    scenario, {"id":.., "ev":[..]}. A harness process that dies or hangs on a scenario yields an event
    {"e":"crash"} / {"e":"hang"} at the end of what it had recorded, and the rest is continued in a new process."""
    jobs = jobs or NCPU
    chunks = [scenarios[i::jobs] for i in range(jobs)]

    def work(chunk):
        out = {}
        pos = 0
        deaths = 0
        while pos < len(chunk):
            with tempfile.TemporaryDirectory(prefix="hx-") as d:
                inp, outp, prog = os.path.join(d, "in"), os.path.join(d, "out"), os.path.join(d, "progress")
                with open(inp, "w") as f:
                    for s in chunk[pos:]:
                        f.write(json.dumps(s, separators=(",", ":")) + "\n")
                e = dict(os.environ)
                e["HX_PROGRESS"] = prog
                e.update(env or {})
                with open(inp) as fi, open(outp, "w") as fo, open(os.path.join(d, "err"), "w") as fe:
                    try:
                        rc = subprocess.run([exe] + list(args), stdin=fi, stdout=fo, stderr=fe, timeout=timeout, env=e).returncode
                        why = "crash"
                    except subprocess.TimeoutExpired:
                        rc, why = -9, "hang"
                err = open(os.path.join(d, "err"), errors="replace").read()
                done = []
                for line in open(outp, errors="replace"):
                    if not line.endswith("\n"):
                        break
                    try:
                        done.append(json.loads(line))
                    except ValueError:
                        break
                for o in done:
                    out[o["id"]] = o
                pos += len(done)
                if pos < len(chunk):
                    if rc == 0:
                        raise CheckError("harness stopped early without failing: " + err[-2000:])
                    if rc == 3:
                        raise CheckError("harness error: " + err[-2000:])
                    if rc == 4:
                        why = "hang"
                    partial = []
                    if os.path.exists(prog):
                        for line in open(prog, errors="replace"):
                            if not line.endswith("\n"):
                                break
                            try:
                                partial.append(json.loads(line))
                            except ValueError:
                                break
                    s = chunk[pos]
                    said = re.findall(r"(?m)^.*(?:ERROR:|SUMMARY:|runtime error|Assertion).*$", err)
                    log("[harness] %s on scenario %s (rc %s): %s" % (why, s["id"], rc, "\n".join(said[:4])[:1000] or err[-600:].strip()))
                    out[s["id"]] = {"id": s["id"], "ev": partial + [{"e": why}], "died": True}
                    pos += 1
                    deaths += 5 if why == "hang" else 1
                    if deaths > 20:
                        for s in chunk[pos:]:
                            out[s["id"]] = None
                        break
        return out

    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(work, [c for c in chunks if c]):
            res.update(o)
    return [res[s["id"]] for s in scenarios if res.get(s["id"]) is not None]


class TraceResult:
    def __init__(self):
        self.bad = []          # (scenario id, event index, [property ids], event)
        self.states = 0
        self.generated = 0
        self.traces = 0
        self.events = 0
        self.wall = 0
        self.lost = 0          # traces with too many explanations to go on


def validate(module, traces, cfg=None, env=None, timeout=800, batch=400000, mem="8g", workers=None, consts=None):
    """Validates recorded traces with specs/<module>.tla. The trace spec reads IOEnv.TRACE (one trace per line,
    {"id","ev"}), steps every trace through the monitor and prints "@@{json}" for each step that breaks
    properties. Every event has to be consumed: the number of states is compared with the number of events."""
    tr = TraceResult()
    i = 0
    while i < len(traces):
        part, n = [], 0
        while i < len(traces) and (n == 0 or n + len(traces[i]["ev"]) <= batch):
            part.append(traces[i])
            n += len(traces[i]["ev"])
            i += 1
        with tempfile.TemporaryDirectory(prefix="tr-") as d:
            p = os.path.join(d, "trace.ndjson")
            with open(p, "w") as f:
                for t in part:
                    f.write(json.dumps({"id": t["id"], "ev": t["ev"]}, separators=(",", ":")) + "\n")
            e = {"TRACE": p}
            e.update(env or {})
            r = tlc(module, cfg, env=e, timeout=timeout, mem=mem, args=("-deadlock",), workers=workers, consts=consts)
        # what was reported before the time was up stands
        late = r.rc == 124 and r.printed
        if not r.ok and not late:
            raise CheckError("trace validation by %s failed (rc %d)\n%s" % (module, r.rc, r.out[-5000:]))
        want = sum(len(t["ev"]) + 1 for t in part)
        if r.distinct != want and not late:
            raise CheckError("%s consumed %d of %d states" % (module, r.distinct, want))
        seen = set()
        for s in r.printed:
            o = json.loads(s)
            key = (o["sc"], o["i"], tuple(sorted(o["bad"])))
            if key in seen:
                continue
            seen.add(key)
            t = part[o["sc"] - 1]
            tr.bad.append((t["id"], o["i"], sorted(o["bad"]), t["ev"][o["i"] - 1], o.get("why")))
        tr.states += r.distinct
        tr.generated += r.generated
        tr.lost += r.lost
        tr.traces += len(part)
        tr.events += n
        tr.wall += r.wall
    tr.bad.sort(key=lambda b: (str(b[0]), b[1]))
    log("[trace] %s: %d traces, %d events, %d reports, %.1fs%s" % (module, tr.traces, tr.events, len(tr.bad), tr.wall, ", %d not judged to the end" % tr.lost if tr.lost else ""))
    return tr


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """Entries of known-findings.json for prop: {"property","sig","what"}; a violation is known when its
    signature equals sig."""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


# ---------------------------------------------------------------- verdict

def save_replay(prop, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, _sha(json.dumps(obj, sort_keys=True))[:10]))
    json.dump(obj, open(p, "w"), indent=1)
    return p


def write_evidence(prop, tier, cov, wall, violations, assumptions, level="model_checking"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def rng(*key):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, key))))


def decide(prop, cov, exe, scenarios, trace_module, consts=None, env=None, harness_env=None, jobs=None, timeout=300, batch=400000, mem="8g", sig=None, repeat=1):
    """Runs the scenarios on the real code, validates the traces, and records the violations of prop that a
    second run of the same scenario repeats (one of 'repeat' runs, where the schedule is not under control)."""
    t0 = time.time()
    traces = run_harness(exe, scenarios, jobs=jobs, timeout=timeout, env=harness_env)
    log("[harness] %d scenarios, %.1fs" % (len(traces), time.time() - t0))
    tr = validate(trace_module, traces, batch=batch, mem=mem, consts=consts, env=env)
    cov["traces_validated_against_impl"] += tr.traces
    cov["events"] = cov.get("events", 0) + tr.events
    if tr.lost:
        cov["traces_not_judged_to_the_end"] = cov.get("traces_not_judged_to_the_end", 0) + tr.lost
    for t in traces:
        for e in t["ev"]:
            k = e["e"]
            cov.setdefault("event_counts", {})
            cov["event_counts"][k] = cov["event_counts"].get(k, 0) + 1
    if len(cov["samples"]) < 2 and traces:
        t = traces[len(traces) // 2]
        cov["samples"].append({"id": t["id"], "ev": t["ev"][:12]})
    others = sorted({p for b in tr.bad for p in b[2]} - {prop})
    if others:
        log("[note] other properties broken in these traces: " + ",".join(others))
    if os.environ.get("VERIF_SHOW"):
        for b in tr.bad[:int(os.environ["VERIF_SHOW"])]:
            t = next(x for x in traces if x["id"] == b[0])
            log("[show] %s event %d breaks %s\n   %s\n   why %s" % (b[0], b[1], b[2], "\n   ".join(json.dumps(e)[:300] for e in t["ev"][max(0, b[1] - int(os.environ.get("VERIF_CTX", "30"))):b[1] + 1]), b[4]))
    hit = [b for b in tr.bad if prop in b[2]]
    byid = {s["id"]: s for s in scenarios}
    # a violation has to repeat
    if hit:
        ids = sorted({b[0] for b in hit}, key=str)
        some = ids[:40]
        again = run_harness(exe, [dict(byid[i], id="%s~%d" % (i, j)) for i in some[:40 if repeat == 1 else 10] for j in range(repeat)], jobs=min(4, NCPU), timeout=timeout, env=harness_env)
        tr2 = validate(trace_module, again, batch=batch, mem=mem, consts=consts, env=env)
        rep = {b[0].rsplit("~", 1)[0] for b in tr2.bad if prop in b[2]}
        conf = [b for b in hit if str(b[0]) in rep]
        if not conf:
            log("[flaky] %d reports did not repeat: %s" % (len(hit), hit[0]))
        for b in conf:
            cov["_violations"].append({"scenario": byid[b[0]], "event_index": b[1], "event": b[3], "why": b[4], "harness": os.path.basename(exe).split("-")[0],
                                       "trace_module": trace_module, "sig": sig(b, byid[b[0]]) if sig else None})
    return tr
