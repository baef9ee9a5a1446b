"""TCP component: T01-T05, M01 (and C06, S05 as far as connections are concerned) over real loopback sockets."""
import json

import vt
from c_server import W, frame, request, broken, FN

PROPS = ["T01", "T02", "T03", "T04", "T05", "M01", "C06", "S05"]
ASSUMPTIONS = ["loopback TCP; the executor of a channel runs its actions one at a time, in the order in which they were posted",
               "the operating system's failures are injected at the system calls (accept, socket, bind, send, getaddrinfo)"]
S = {"o": "settle"}


def distinct_request(r, k):
    """A small valid request whose bytes differ from those of every other k."""
    fn = r.choice(FN)
    a = k
    if fn <= 4:
        return {"fn": fn, "a": a, "n": r.choice([1, 2, 8, 9, 125])}
    if fn == 5:
        return {"fn": 5, "a": a, "x": r.randrange(2)}
    if fn == 6:
        return {"fn": 6, "a": a, "x": r.choice([0, 1, 65535])}
    n = r.choice([1, 2, 9, 123])
    return {"fn": fn, "a": a, "vs": [r.randrange(2) if fn == 15 else r.randrange(65536) for _ in range(n)]}


def some_bytes(r, p, k):
    """Bytes that a peer sends to the server: requests, invalid ones, things that are no requests."""
    u = r.choice([1, 2])
    tid = (p * 256 + k) & 0xFFFF
    a = r.choice([k, k, 100 + k, 59000 + k, 60000 + k])
    x = r.random()
    if x < 0.7:
        return frame(tid, u, request(r, r.choice(FN), a))
    if x < 0.78:
        return frame(tid, u, broken(r, r.choice(FN), a))
    if x < 0.84:
        return frame(tid, u, [r.choice([7, 20, 43, 100])] + [0] * r.randrange(4))
    if x < 0.88:
        return frame(tid, 9, request(r, 3, a))
    if x < 0.93:
        return frame(tid, u, request(r, 3, a), proto=r.choice([1, 256]))
    return frame(tid, u, [], length=0)


def server_scenario(r, n, kind):
    mx = r.choice([1, 1, 2, 2, 3, 4])
    ops = [{"o": "srv", "max": mx, "units": [1, 2]}, S]
    nextp, k = 1, 0
    alive = []
    rest = {}

    def step():
        x = r.random()
        if x < 0.55:
            ops.append(S)
        elif x < 0.65:
            ops.append({"o": "io", "n": r.choice([1, 1, 2])})
        elif x < 0.75:
            ops.append({"o": "run", "n": r.choice([1, 1, 2, 3])})
        elif x < 0.8:
            ops.append({"o": "io"})

    for _ in range(n):
        x = r.random()
        if (x < 0.25 or not alive) and nextp <= 12:
            ops.append({"o": "pc", "p": nextp})
            alive.append(nextp)
            nextp += 1
            if kind == "pressure" and r.random() < 0.7:
                ops.append({"o": "lim", "p": nextp - 1, "budget": r.choice([0, 1, 3, 7, 8, 50]), "chunk": r.choice([-1, 1, 5])})
        elif x < 0.65 and alive:
            p = r.choice(alive)
            b = rest.pop(p, [])
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                k += 1
                b = b + some_bytes(r, p, k)
            if r.random() < 0.25 and len(b) > 2:
                c = r.randrange(1, len(b))
                rest[p] = b[c:]
                b = b[:c]
            ops.append({"o": "ps", "p": p, "b": b})
        elif x < 0.77 and alive:
            p = r.choice(alive)
            ops.append({"o": "px", "p": p, "how": r.choice(["fin", "rst", "half"])})
            alive.remove(p)
        elif x < 0.82 and kind == "accept":
            ops.append({"o": "accfail", "n": r.choice([1, 1, 2, 3]), "err": r.choice([24, 12, 105, 23])})
        elif x < 0.86 and alive:
            ops.append({"o": "stall", "p": r.choice(alive), "on": r.choice([1, 0])})
        elif x < 0.94 and alive and kind == "pressure":
            p = r.choice(alive)
            y = r.random()
            if y < 0.15:
                ops.append({"o": "lim", "p": p, "err": r.choice([32, 104])})
            elif y < 0.3:
                ops.append({"o": "lim", "p": p, "rchunk": r.choice([1, 2, 7, 8, -1])})
            else:
                ops.append({"o": "bud", "p": p, "n": r.choice([1, 2, 6, 7, 9, 20, 300, -1])})
        step()
    ops.append(S)
    if kind == "pressure":
        for p in range(1, nextp):
            ops.append({"o": "bud", "p": p, "n": -1})
        ops.append(S)
    for p in range(1, nextp):
        ops.append({"o": "stall", "p": p, "on": 0})
    ops.append(S)
    if r.random() < 0.5:
        # still in service
        ops += [{"o": "pc", "p": 50}, S, {"o": "ps", "p": 50, "b": frame(0x3201, 1, [3, 0, 1, 0, 1])}, S]
    if r.random() < (0.9 if kind == "shut" else 0.2):
        ops += closing(r, [{"o": "shut", "c": 0}], [{"o": "ps", "p": p, "b": frame(p * 256 + 99, 1, [3, 0, 1, 0, 1])} for p in alive] + [{"o": "pc", "p": 60}])
    return ops


def closing(r, some, more):
    """Shuts things down in the middle of what is going on, then shows that they are."""
    ops = []
    for o in r.sample(more, min(len(more), r.choice([0, 1, 2]))):
        ops.append(o)
        if r.random() < 0.5:
            ops.append({"o": r.choice(["io", "run"]), "n": r.choice([1, 2])})
    ops.append(r.choice(some + [{"o": "mshut"}, {"o": "mshut"}, {"o": "mdel"}]))
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.append(r.choice([{"o": "io", "n": 1}, {"o": "run", "n": 1}, {"o": "mshut"}, {"o": "mdel"}] + some))
    for o in r.sample(more, min(len(more), r.choice([0, 1]))):
        if o not in ops:
            ops.append(o)
    ops += [S, {"o": "adv", "d": r.choice([1, 2000])}, S]
    for o in more[:3]:
        o = dict(o)
        if o["o"] == "pc":
            o["p"] += 1
        if o["o"] != "sub":
            ops.append(o)
    ops += [{"o": "start"}, {"o": "mshut"}, S, {"o": "mdel"}, S]
    return ops


def client_scenario(r, n, kind, c=1, k0=0, units=(1, 2)):
    cli = {"o": "cli", "c": c}
    x = r.random()
    if kind == "adapter" or x < 0.1:
        cli["adapter"] = r.choice(["127.9.8.7", "127.0.0.1", "127.200.1.1", "same", "other"])
    if kind == "adapter" and r.random() < 0.3:
        cli["adapter"] = r.choice(["nonsense", "203.0.113.9", "300.1.1.1", "::1"])
        cli["badad"] = 1
    if r.random() < 0.35:
        cli["host"] = "device.test"
    if r.random() < 0.2:
        cli["up"] = 0
    ops = [cli]
    k = k0
    adv = 0

    def sub(depth=0):
        nonlocal k
        k += 1
        o = {"o": "sub", "c": c, "k": k, "u": r.choice(units), "rq": distinct_request(r, k), "tmo": r.choice([1000, 1000, 500, 5000])}
        if r.random() < 0.2 and depth < 2:
            o["on"] = [sub(depth + 1)]
            if r.random() < 0.3:
                o["on"].append({"o": "px", "c": c, "how": r.choice(["fin", "rst"])})
        return o

    def step():
        x = r.random()
        if x < 0.6:
            ops.append(S)
        elif x < 0.7:
            ops.append({"o": "io", "n": r.choice([1, 1, 2])})
        elif x < 0.8:
            ops.append({"o": "run", "n": r.choice([1, 1, 2, 3])})
        elif x < 0.83:
            ops.append({"o": "io"})

    for _ in range(n):
        x = r.random()
        if x < 0.35:
            ops.append(sub())
            if r.random() < 0.2:
                ops.append(sub())
        elif x < 0.6:
            o = {"o": "ans", "c": c}
            y = r.random()
            if y < 0.08:
                o["tid"] = r.choice([1, 2, 64])
            elif y < 0.16:
                o["exc"] = r.choice([1, 2, 4, 77])
            elif y < 0.26:
                o["part"] = r.choice([1, 5, 7, 8])
            ops.append(o)
        elif x < 0.72:
            ops.append({"o": "px", "c": c, "how": r.choice(["fin", "fin", "rst", "half"])})
        elif x < 0.78 and kind in ("env", "shut"):
            ops.append({"o": "lis", "c": c, "up": r.choice([0, 1, 1])})
        elif x < 0.83 and kind in ("env", "adapter"):
            ops.append({"o": "res", "mode": r.choice([0, 1, 2, 2])})
        elif x < 0.86 and kind == "env":
            ops.append({"o": "sysfail", r.choice(["socket", "bind"]): r.choice([1, 2])})
        elif x < 0.95 and kind == "pressure":
            y = r.random()
            if y < 0.2:
                ops.append({"o": "lim", "c": c, "err": r.choice([32, 104])})
            elif y < 0.4:
                ops.append({"o": "lim", "c": c, "rchunk": r.choice([1, 2, 7, 8, -1])})
            elif y < 0.6:
                ops.append({"o": "lim", "c": c, "budget": r.choice([0, 1, 5, 12, 13, 20]), "chunk": r.choice([-1, 1, 5])})
            else:
                ops.append({"o": "bud", "c": c, "n": r.choice([1, 2, 6, 7, 12, 300, -1])})
        elif x < 0.97:
            d = r.choice([100, 500, 1000])
            ops.append({"o": "adv", "d": d})
        elif x < 0.98:
            ops.append({"o": "stall", "c": c, "on": r.choice([0, 1])})
        step()
    ops.append(S)
    if kind == "pressure":
        ops += [{"o": "bud", "c": c, "n": -1}, S]
    if r.random() < 0.6:
        # the channel still works
        ops += [{"o": "lis", "c": c, "up": 1}, {"o": "res", "mode": 0}, {"o": "stall", "c": c, "on": 0}, S, {"o": "adv", "d": 6000}, S, {"o": "px", "c": c, "how": "fin"}, S,
                sub(3), S, {"o": "ans", "c": c}, S]
    if r.random() < (0.9 if kind == "shut" else 0.2):
        ops += closing(r, [{"o": "shut", "c": c}], [sub(3), {"o": "ans", "c": c}, sub(3), {"o": "px", "c": c, "how": "rst"}, {"o": "adv", "d": 1000}])
    return ops


def failing(q):
    """A connection that fails while a request is written on it, in single steps; the next request is submitted at every point of that."""
    out = []
    sub = lambda k, on=(): {"o": "sub", "c": 1, "k": k, "u": 1, "rq": {"fn": 3, "a": k, "n": 1}, "tmo": 1000, **({"on": list(on)} if on else {})}
    up = [{"o": "cli", "c": 1}, sub(1), S, {"o": "ans", "c": 1}, S]
    tail = [S, {"o": "ans", "c": 1}, S, sub(9), S, {"o": "ans", "c": 1}, S]
    io, run = {"o": "io", "n": 1}, {"o": "run", "n": 1}
    ways = [[{"o": "lim", "c": 1, "err": 104}], [{"o": "lim", "c": 1, "budget": 0}], [{"o": "lim", "c": 1, "budget": 5}]]
    ends = [[], [{"o": "px", "c": 1, "how": "fin"}], [{"o": "px", "c": 1, "how": "rst"}], [{"o": "px", "c": 1, "how": "half"}]]
    steps = [[], [run], [run, io], [run, io, run], [run, io, run, io], [run, io, run, io, run], [io, run, io, run, run, io]]
    for way in ways:
        for end in ends:
            for a in steps:
                for b in ([], [run], [run, io, run]):
                    fail = [{"o": "lim", "c": 1, "budget": -1, "err": 32}] if "budget" in way[0] else []
                    out.append(up + way + [sub(2)] + a + fail + end + b + [sub(3)] + tail)
                    out.append(up + way + [sub(2, [sub(3)])] + a + fail + end + b + tail)
                    out.append(up + way + [sub(2, [sub(3, [sub(4)])]), sub(5)] + a + fail + end + b + [S] + tail)
                    if not q or a == steps[3]:
                        out.append(up + way + [sub(2)] + a + fail + end + b + [sub(3)] + a + [sub(4)] + b + tail)
    return out


def both_scenario(r, n):
    """Several channels of one manager."""
    a = server_scenario(r, n, r.choice(["accept", "pressure", "plain"]))
    b = client_scenario(r, n, r.choice(["env", "pressure", "adapter"]), 1, 0)
    c = client_scenario(r, n, r.choice(["env", "pressure"]), 2, 1000)
    out = []
    streams = [x for x in (a, b, c) if r.random() < 0.8] or [b]
    while any(streams):
        s = r.choice([x for x in streams if x])
        o = s.pop(0)
        if o["o"] in ("mshut", "mdel"):
            continue
        out.append(o)
    return out + closing(r, [{"o": "shut", "c": 0}, {"o": "shut", "c": 1}], [{"o": "pc", "p": 70}, {"o": "adv", "d": 1000}])


def scenarios(prop, tier):
    q = tier == "quick"
    r = vt.rng("tcp", prop)
    n = 1500 if q else 20000
    if prop in ("C06", "S05"):
        n //= 3
    out = []
    for i in range(n):
        if prop in ("T01", "T04"):
            kind = r.choice(["accept", "accept", "plain", "pressure"]) if prop == "T01" else r.choice(["plain", "pressure", "pressure", "accept"])
            ops = server_scenario(r, r.choice([6, 12, 25]), kind)
        elif prop == "T02":
            ops = server_scenario(r, r.choice([6, 12, 20]), "pressure") if r.random() < 0.5 else client_scenario(r, r.choice([6, 12, 25]), "pressure")
        elif prop == "T03":
            ops = client_scenario(r, r.choice([6, 12, 25]), r.choice(["env", "env", "pressure", "plain"]))
        elif prop == "T05":
            ops = client_scenario(r, r.choice([6, 12]), "adapter") if r.random() < 0.8 else both_scenario(r, 8)
        elif prop == "C06":
            ops = client_scenario(r, r.choice([3, 6, 12]), "shut")
        elif prop == "S05":
            ops = server_scenario(r, r.choice([3, 6, 12]), "shut")
        else:
            x = r.random()
            ops = both_scenario(r, r.choice([4, 8])) if x < 0.4 else client_scenario(r, r.choice([3, 6, 12]), "shut") if x < 0.7 else server_scenario(r, r.choice([3, 6, 12]), "shut")
        if prop == "M01" and r.random() < 0.4:
            for _ in range(r.choice([1, 1, 2])):
                ops.insert(r.randrange(len(ops)), {"o": "extra", "n": r.choice([1, 2])})
            ops += [{"o": "probe"}, {"o": "mshut"}, S, {"o": "probe"}]
        out.append({"id": "t%d" % i, "ops": ops})
    if prop in ("T02", "T03"):
        out += [{"id": "f%d" % i, "ops": ops} for i, ops in enumerate(failing(q))]
    return out


# deviations of the designs that must be rejected, per property
SERVER, CLIENT = "MC_TcpServer", "MC_TcpClient"
MUTANTS = {"T01": [(SERVER, "errcount"), (SERVER, "nodec"), (SERVER, "errstop"), (SERVER, "once")],
           "T02": [(CLIENT, "short"), (CLIENT, "dropnext"), (CLIENT, "overwrite")],
           "T03": [(CLIENT, "stale"), (CLIENT, "quieteof"), (CLIENT, "asyncclose"), (CLIENT, "ignoreerr"), (CLIENT, "resend")],
           "T04": [(SERVER, "ge"), (SERVER, "nolimit"), (SERVER, "newest"), (SERVER, "errkeep"), (SERVER, "deaf")],
           "T05": [(CLIENT, "bindonce"), (CLIENT, "bindfirst"), (CLIENT, "firstonly")],
           "M01": [(CLIENT, "leak"), (SERVER, "listening"), (SERVER, "noclose")],
           "C06": [(CLIENT, "leak")],
           "S05": [(SERVER, "listening"), (SERVER, "noclose")]}
BOUNDS = {SERVER: {"MaxOps": "8", "MaxPeers": "5"}, CLIENT: {"MaxOps": "7", "MaxEnv": "3"}}


def from_model(module, hist, r):
    """A behaviour of a design model as a scenario for the real code."""
    ops = [{"o": "srv", "max": 2, "units": [1, 2]}] if module == SERVER else []
    for o in hist:
        o = dict(o)
        if o["o"] == "cli" and not o["adapter"]:
            del o["adapter"]
        if o["o"] == "lim":
            # the model lets a write fail that is already under way
            continue
        ops.append(o)
    if module == SERVER:
        ops += [{"o": "pc", "p": 50}, S, {"o": "ps", "p": 50, "b": frame(0x3201, 1, [3, 0, 1, 0, 1])}, S]
    else:
        ops += [{"o": "lis", "c": 1, "up": 1}, {"o": "res", "mode": 0}, S, {"o": "adv", "d": 6000}, S, {"o": "px", "c": 1, "how": "fin"}, S,
                {"o": "sub", "c": 1, "k": 90, "u": 1, "rq": {"fn": 3, "a": 90, "n": 1}, "tmo": 1000}, S, {"o": "ans", "c": 1}, S]
    if r.random() < 0.3:
        ops += [{"o": "mshut"}, S, {"o": "mdel"}, S]
    return ops


def modelled(prop, tier, cov):
    """Checks the designs, rejects their deviations, and returns the behaviours to replay."""
    q = tier == "quick"
    r = vt.rng("tcpmodel", prop)
    scs = []
    for module in sorted({m for m, _ in MUTANTS[prop]}):
        d = vt.tlc(module, consts={"Dump": "TRUE", "MaxOps": ("5" if module == SERVER else "4") if q else ("6" if module == SERVER else "5")}, workers=1, args=("-deadlock",))
        if not d.ok:
            raise vt.CheckError("dump failed\n" + d.out[-2000:])
        paths = [json.loads(x) for x in d.printed]
        limit = 600 if q else 12000
        if len(paths) > limit:
            paths = r.sample(paths, limit)
        scs += [{"id": "%s%d" % (module[6], i), "ops": from_model(module, p, r)} for i, p in enumerate(paths)]
        m = vt.model_check(module, consts=None if q else BOUNDS[module], timeout=850, mem="12g")
        cov["states"] += m.distinct
        cov["transitions"] += m.generated
    for module, mut in MUTANTS[prop][:1 if q else 9]:
        n = vt.tlc(module, consts={"Mut": '"%s"' % mut}, args=("-deadlock",))
        if n.ok:
            n = vt.tlc(module, consts=dict(BOUNDS[module], Mut='"%s"' % mut), args=("-deadlock",))
        if n.ok or "is violated" not in n.out:
            raise vt.CheckError("the deviation %s of the design is not rejected: the specification is vacuous\n%s" % (mut, n.out[-2000:]))
    return scs


def run(prop, tier, cov):
    exe = vt.build("h_tcp", ["h_tcp.cpp"], opt="-O1", extra=("-fsanitize=address",))
    scs = modelled(prop, tier, cov) + scenarios(prop, tier)
    vt.decide(prop, cov, exe, scs, "Trace_Tcp", harness_env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"})
    cov["rule"] = (cov.get("rule", "") + " TCP: behaviours of the bounded models of the server's connections and of a client channel's connections, sampled to the tier's limit; "
                   "seeded random histories of peers, system call failures, write budgets and shutdowns over loopback connections").strip()
