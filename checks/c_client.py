"""Client channel component: C01-C07 (and C08-C10, F01 on mixed traffic)."""
import json
import vt

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "F01"]
CLIENT = lambda p: not p.startswith("server/") and "Asio" not in p and "Manager" not in p
ASSUMPTIONS = ["the executor runs its actions one at a time, in the order in which they were posted; the action of an expired timer is posted when the time has passed",
               "requests of one scenario differ in their function and address, so that each transmission names its request"]

# deviations of the design and a property each of them breaks: the specification must tell them apart
MUTANTS = {"C01": ["nonext", "keepcur"], "C02": ["early", "sametid"], "C03": ["anytid", "anyunit"], "C04": ["stale"], "C05": ["noreset", "keepqueue"],
           "C06": ["latereject"], "C07": ["inline"], "C08": ["sendbad"]}


def rq(k, valid=True):
    return {"fn": 3, "a": k, "n": 1 if valid else 0}


def from_model(ops):
    out = [{"o": "open", "s": 1, "u": 17, "to": 100}]
    for o in ops:
        o = dict(o)
        if o.pop("re", False):
            k = o["k"] + 10
            o["on"] = [{"o": "sub", "s": 1, "k": k, "rq": rq(k), "to": 1}]
        out.append(o)
    return out


def drain(n):
    out = [{"o": "run"}]
    for _ in range(n):
        out += [{"o": "advto"}, {"o": "run"}]
    return out


def model(prop, tier, cov):
    """Checks the design; returns one scenario per transition of its state graph, and confirms that deviations are rejected."""
    q = tier == "quick"
    r = vt.model_check("MC_Client", consts={"MaxOps": "9" if q else "12"})
    cov["states"] += r.distinct
    cov["transitions"] += r.generated
    if not q:
        r = vt.model_check("MC_Client", consts={"MaxOps": "10", "NReq": "3"})
        cov["states"] += r.distinct
        cov["transitions"] += r.generated
    for mut in MUTANTS.get(prop, []) if not q else MUTANTS.get(prop, [])[:1]:
        n = vt.tlc("MC_Client", consts={"Mut": '"%s"' % mut}, args=("-deadlock",))
        if n.ok or "is violated" not in n.out:
            raise vt.CheckError("the deviation %s of the design is not rejected: the specification is vacuous\n%s" % (mut, n.out[-2000:]))
    d = vt.tlc("MC_Client", consts={"Dump": "TRUE", "MaxOps": "7" if q else "8"}, workers=1, args=("-deadlock",))
    if not d.ok:
        raise vt.CheckError("dump failed\n" + d.out[-2000:])
    return [json.loads(x) for x in d.printed]


class Gen:
    """Seeded random histories of one channel."""

    def __init__(self, r):
        self.r = r

    def request(self, k, polls=False):
        r = self.r
        a = self.addrs[k % len(self.addrs)] if k < len(self.addrs) else k
        fn = r.choice([1, 2, 3, 4] if polls else [1, 2, 3, 3, 4, 5, 6, 15, 16])
        if fn <= 4:
            mx = 2000 if fn <= 2 else 125
            return {"fn": fn, "a": a, "n": r.choice([1, 1, 2, 7, 8, 9, 16, 17, mx])}
        if fn == 5:
            return {"fn": 5, "a": a, "x": r.choice([0, 1])}
        if fn == 6:
            return {"fn": 6, "a": a, "x": r.choice([0, 1, 255, 256, 65280, 65535, r.randrange(65536)])}
        mx = 1968 if fn == 15 else 123
        n = r.choice([1, 2, 7, 8, 9, 16, 17, mx if r.random() < 0.2 else 3])
        return {"fn": fn, "a": a, "vs": [r.randrange(2) if fn == 15 else r.randrange(65536) for _ in range(n)]}

    def invalid(self, k):
        r = self.r
        x = self.request(k, True)
        fn = r.choice([1, 2, 3, 4, 15, 16])
        if fn <= 4:
            return {"fn": fn, "a": x["a"], "n": r.choice([0, 2001 if fn <= 2 else 126, 65535])}
        return {"fn": fn, "a": x["a"], "vs": [0] * r.choice([0, 1969 if fn == 15 else 124])}

    def sub(self, depth=0):
        r = self.r
        self.k += 1
        k = self.k
        bad = r.random() < 0.12
        o = {"o": "sub", "s": r.choice(self.sessions), "k": k, "rq": self.invalid(k) if bad else self.request(k)}
        if r.random() < 0.8:
            o["to"] = r.choice(self.tos)
        if depth < 2 and r.random() < 0.25:
            o["on"] = [self.inner(depth + 1) for _ in range(r.choice([1, 1, 2]))]
        if depth == 0:
            self.recent.append(k)
        self.all.append(k)
        return o

    def inner(self, depth):
        r = self.r
        x = r.random()
        if x < 0.8:
            return self.sub(depth)
        if x < 0.86 and self.allow_shut:
            return {"o": "shut"}
        if x < 0.93 and self.polls:
            return self.poll_op()
        return {"o": "open", "s": r.choice(self.sessions), "u": r.choice(self.units), "to": r.choice(self.tos)}

    def poll_op(self):
        r = self.r
        k = r.choice(self.polls)
        return r.choice([{"o": "start", "k": k}, {"o": "stop", "k": k}, {"o": "freq", "k": k, "per": r.choice([1, 3, 20])}])

    def answer(self):
        r = self.r
        pool = self.recent[-4:] + self.polls[-2:]
        k = r.choice(pool) if r.random() < 0.8 else r.choice(self.all + self.polls)
        o = {"o": "ans", "k": k}
        x = r.random()
        if x < 0.08:
            o["dt"] = r.choice([1, 65535, 256, 2])
        elif x < 0.14:
            o["du"] = r.choice([1, 255])
        elif x < 0.20:
            o["exc"] = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 7, 9, 99, 255])
        elif x < 0.25:
            o["pdu"] = r.choice([[], [3], [3, 2], [3, 2, 1], [3, 2, 1, 2, 3], [131], [131, 2, 3], [1, 1, 1], [0], [255], [5, 0, 1, 255, 0], [6, 0, 1, 0, 1]])
        elif x < 0.28:
            o["proto"] = r.choice([1, 256, 65535])
        if r.random() < 0.12:
            o["rep"] = r.choice([2, 2, 3])
        if r.random() < 0.08:
            o["pre"] = r.choice([[255, 240, 0, 0, 0, 3, 9, 9, 9], [255, 241, 0, 7, 0, 2, 1, 5], [255, 242, 0, 0, 0, 0, 17], [255, 243, 0, 0, 0, 1, 17]])
        y = r.random()
        if y < 0.2:
            o["cut"] = [r.randrange(1, 12) for _ in range(r.choice([1, 2, 3]))]
        elif y < 0.3:
            o["hold"] = r.randrange(1, 12)
            self.held = True
        return o

    def one(self, id, n, polls, shut):
        r = self.r
        self.k, self.recent, self.all, self.polls, self.held = 0, [], [], [], False
        self.addrs = r.sample([0, 1, 2, 255, 256, 257, 32767, 32768, 65280, 65534, 65535] + list(range(1000, 1400)), 300)
        self.units = r.sample([0, 1, 2, 17, 127, 128, 247, 254, 255], 3)
        self.sessions = [1, 2, 3][:r.choice([1, 2, 3])]
        self.tos = r.choice([[1, 2, 5], [10, 10, 20], [1, 10, 100], [50], [0, 1, 10]])
        self.allow_shut = shut
        ops = [{"o": "open", "s": s, "u": r.choice(self.units), "to": r.choice(self.tos)} for s in self.sessions]
        if polls:
            for _ in range(r.choice([1, 2])):
                self.k += 1
                k = self.k
                ops.append({"o": "sch", "s": r.choice(self.sessions), "k": k, "rq": self.request(k, True), "to": r.choice(self.tos), "per": r.choice([1, 5, 10])})
                self.polls.append(k)
        ops.append(self.sub())
        burst = r.choice([0.2, 0.3, 0.5])
        for _ in range(n):
            x = r.random()
            if self.held and r.random() < 0.5:
                ops.append(r.choice([{"o": "rest"}, {"o": "rest"}, {"o": "rest", "cut": [1, 1]}, {"o": "norest"}]))
                self.held = ops[-1]["o"] == "ans"
                if r.random() < 0.5:
                    self.held = False
                continue
            if x < burst:
                ops.append(self.sub())
            elif x < burst + 0.2:
                ops.append({"o": "run", "n": r.choice([1, 1, 2, 3])} if r.random() < 0.5 else {"o": "run"})
            elif x < burst + 0.38:
                ops.append(self.answer())
            elif x < burst + 0.46:
                ops.append({"o": "advto", "less": r.choice([0, 0, 0, 1])} if r.random() < 0.7 else {"o": "adv", "ms": r.choice([1, 2, 5, 10, 50])})
            elif x < burst + 0.50:
                ops.append({"o": "err", "norest": r.choice([0, 1, 1])})
                self.held = False
            elif x < burst + 0.54 and self.polls:
                ops.append(self.poll_op())
            elif x < burst + 0.56:
                ops.append({"o": "rx", "b": [r.choice([0, 0, 0, 1, 2, 3, 17, 255]) for _ in range(r.choice([1, 3, 7, 9]))]} if r.random() < 0.2 else {"o": "err"})
            elif x < burst + 0.57 and shut:
                ops.append({"o": "shut"})
            else:
                ops.append({"o": "run"} if r.random() < 0.7 else self.answer())
        ops += drain(min(len(self.all), 30) + 2)
        if shut and r.random() < 0.7:
            ops += [{"o": "shut"}, {"o": "run", "n": r.choice([0, 1])}, self.sub(), self.answer(), {"o": "err"}, {"o": "advto"}, {"o": "run"}, self.sub(),
                    {"o": "open", "s": 1, "u": 1, "to": 5}, {"o": "run"}, self.sub(), {"o": "run"}]
        return {"id": id, "ops": ops}


def race_scenarios():
    """Schedules around the expiry of a timer, an answer and an error that meet in the queue."""
    out = []
    S = lambda k, to, **kw: dict({"o": "sub", "s": 1, "k": k, "rq": rq(k), "to": to}, **kw)
    o1 = [{"o": "open", "s": 1, "u": 17, "to": 100}]
    A = {"o": "ans", "k": 1}
    for third in ([], [S(3, 10)]):
        for n in (0, 1):
            # the timer of request 1 has expired, its action is queued, and request 1 is answered / fails first
            for ev in ([A], [{"o": "err"}], [A, {"o": "ans", "k": 1}], [A, {"o": "err"}]):
                out.append(o1 + [S(1, 5), S(2, 10)] + third + [{"o": "run"}, {"o": "adv", "ms": 5}] + ev + [{"o": "run", "n": n}] + drain(5))
                out.append(o1 + [S(1, 5, on=[S(2, 10)])] + third + [{"o": "run"}, {"o": "adv", "ms": 5}] + ev + [{"o": "run", "n": n}] + drain(5))
                out.append(o1 + [S(1, 5), {"o": "run"}, {"o": "adv", "ms": 5}, S(2, 10)] + third + ev + [{"o": "run", "n": n}, {"o": "ans", "k": 2}] + drain(5))
    # the connection fails with a frame half received; the next answer arrives on the new connection
    for h in range(1, 11):
        out.append(o1 + [S(1, 50), {"o": "run"}, {"o": "ans", "k": 1, "hold": h}, {"o": "err"}, S(2, 50), {"o": "run"}, {"o": "ans", "k": 2}] + drain(3))
        out.append(o1 + [S(1, 50), S(2, 50), {"o": "run"}, {"o": "ans", "k": 1, "hold": h}, {"o": "err", "norest": 0}, {"o": "norest"}, S(3, 50), {"o": "run"}, {"o": "ans", "k": 3}] + drain(3))
    # the shutdown at every position of the queue
    for pos in range(0, 7):
        base = [S(1, 5), {"o": "sub", "s": 1, "k": 2, "rq": rq(2, False), "to": 5}, S(3, 5), {"o": "sub", "s": 1, "k": 4, "rq": rq(4, False), "to": 5}, S(5, 5)]
        base.insert(min(pos, len(base)), {"o": "shut"})
        for n in range(0, 4):
            out.append(o1 + base + [{"o": "run", "n": n}, A, {"o": "err"}, {"o": "adv", "ms": 5}, {"o": "run"}, A, {"o": "err"}, {"o": "adv", "ms": 20}, S(6, 5), {"o": "run"}])
    # shutdown from inside each kind of completion
    for fin in ([A], [{"o": "err"}], [{"o": "adv", "ms": 5}]):
        out.append(o1 + [S(1, 5, on=[{"o": "shut"}, S(7, 5)]), S(2, 5), {"o": "run"}] + fin + drain(4) + [{"o": "ans", "k": 2}, {"o": "err"}, {"o": "run"}])
    # resubmission from every kind of completion, three generations deep
    chain = S(1, 5, on=[S(2, 5, on=[S(3, 5, on=[S(4, 5)])])])
    for a in range(3):
        for b in range(3):
            fins = [[{"o": "ans", "k": 1}, {"o": "ans", "k": 2}], [{"o": "err"}], [{"o": "adv", "ms": 5}]]
            out.append(o1 + [chain, S(9, 7), {"o": "run"}] + fins[a] + [{"o": "run"}] + fins[b] + drain(8))
    # late answers, to every earlier request, of each kind
    for n in (2, 3):
        out.append(o1 + [S(k, 5) for k in range(1, n + 2)] + [{"o": "run"}] + [x for k in range(1, n + 1) for x in (
            {"o": "adv", "ms": 5}, {"o": "run"}, {"o": "ans", "k": k}, {"o": "ans", "k": k, "rep": 2})] + drain(3))
    return [{"id": "t%d" % i, "ops": x} for i, x in enumerate(out)]


def long_runs(q):
    """Queues longer than any limit one may think of, and the same thing happening many times in a row."""
    out = []
    o1 = [{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "open", "s": 2, "u": 3, "to": 40}]
    S = lambda k, to=None, **kw: dict({"o": "sub", "s": 1 + k % 2, "k": k, "rq": rq(k, kw.pop("valid", True)), **({} if to is None else {"to": to})}, **kw)
    A = lambda k, **kw: dict({"o": "ans", "k": k}, **kw)
    R, T, X = {"o": "run"}, {"o": "advto"}, {"o": "err"}
    for n in (66, 140, 270) if q else (66, 140, 270, 600, 1100):
        subs = [S(k, None if k % 5 == 0 else 1 + k * 7 % 50) for k in range(1, n + 1)]
        out.append(o1 + subs + drain(n + 1))
        out.append(o1 + [R] + subs + [x for k in range(1, n + 1) for x in (R, A(k), A(k))] + drain(2))
        out.append(o1 + subs + [x for k in range(1, n + 1) for x in ([R, A(k)] if k % 3 else [R, T])] + drain(2))
        out.append(o1 + subs + [R, X, R] + [S(n + k, 9) for k in range(1, 71)] + [x for k in range(1, 71) for x in ([R, A(n + k)] if k % 4 else [R, T])] + drain(2))
        out.append(o1 + subs + [R, A(1), A(2), R, {"o": "shut"}, R, T, R, X, R, A(3), R])
        out.append(o1 + [S(k, 10, valid=k % 2 == 0) for k in range(1, n + 1)] + drain(n // 2 + 1))
    for n in (40, 120) if q else (40, 120, 400):
        # one at a time: timeouts, failures, rejections, late answers
        for what in ([T], [X], [T, None], [X, None]):
            ops = list(o1)
            for k in range(1, n + 1):
                ops += [S(k, 5), R] + [A(k) if w is None else w for w in what] + [R]
            out.append(ops + [S(n + 1, 50), R, A(n), A(n + 1), R] + drain(1))
        out.append(o1 + [S(1, 500)] + [S(k, 5, valid=False) for k in range(2, n)] + [R, A(1), S(n, 5), R, A(n)] + drain(1))
        out.append(o1 + [S(1, 50), S(2, 50), R] + [A(1, rep=n)] + [R, A(1), A(2, dt=1, rep=n), A(2, du=1, rep=n), {"o": "adv", "ms": 49}, R, {"o": "adv", "ms": 1}, R] + [A(2)] + drain(2))
        nest = S(n, 5)
        for k in range(n - 1, 0, -1):
            nest = S(k, 5, on=[nest])
        out.append(o1 + [nest] + [x for k in range(1, n + 1) for x in ([R, A(k)] if k % 3 else [R, T] if k % 2 else [R, X])] + drain(2))
    # messages that answer nothing, of every shape, at every moment: they leave the requests alone
    bodies = [None, [], [3], [0], [131], [131, 2], [131, 2, 3], [3, 2], [3, 2, 1, 2], [3, 0], [1, 1, 1], [129, 1], [5, 0, 1, 255, 0], [255], [43] + [7] * 252, [3, 2, 9, 9] + [0] * 30]
    for b in bodies:
        pdu = {} if b is None else {"pdu": b}
        alien = [A(1, dt=d, du=u, proto=p, **pdu) for d, u, p in ((1, 0, 0), (65535, 0, 0), (0, 1, 0), (0, 239, 0), (0, 238, 0), (256, 0, 0), (32768, 0, 0), (1, 1, 0), (0, 0, 1), (0, 0, 65535))]
        if not q or b in (None, [], [131, 2], [3]):
            out += [o1 + [S(1, 10), S(2, 10), R, x, R] + end + [R, A(2, **pdu), R] + drain(2) for x in alien
                    for end in ([A(1)], [{"o": "adv", "ms": 9}, R, A(1)], [{"o": "adv", "ms": 9}, R, {"o": "adv", "ms": 1}])]
        out.append(o1 + [S(1, 10), S(2, 10), R] + alien + [R, A(1), R] + alien + [A(2), R] + alien + [A(1, **pdu), A(2, **pdu), R, S(3, 10), R] + alien + [A(2, **pdu), A(3, cut=[3, 5]), R] + drain(2))
        out.append(o1 + [S(1, 10), S(2, 10), R, {"o": "adv", "ms": 10}] + alien + [R, A(1, **pdu), R, X] + alien + [S(4, 10), R] + alien + [A(1, **pdu), A(2, **pdu), A(4)] + drain(2))
    # timeouts of no length: the request is sent and fails at once, unless it is answered before the timer's action runs
    for n in (1, 2, 3):
        out.append(o1 + [S(k, 0) for k in range(1, n + 1)] + [S(9, 5), R, A(9), R] + drain(2))
        out.append(o1 + [S(k, 0) for k in range(1, n + 1)] + [{"o": "run", "n": n}, A(1), {"o": "run", "n": 1}, A(2), R, X] + drain(2))
        out.append(o1 + [S(k, 0) for k in range(1, n + 1)] + [{"o": "run", "n": n}, X, {"o": "run", "n": 1}, S(8, 0, valid=False), R] + drain(2))
        out.append([{"o": "open", "s": 1, "u": 17, "to": 0}, {"o": "open", "s": 2, "u": 3, "to": 0}] + [S(k) for k in range(1, n + 1)] + [R, S(9, 10), S(10), R, A(9), R] + drain(2))
    # long timeouts
    for to in (1000, 65535, 65536, 3600000, 86400000 + 5, 500000000):
        out.append(o1 + [S(1, to), S(2, 7), R, {"o": "adv", "ms": to - 1}, R, {"o": "adv", "ms": 1}] + drain(3))
        out.append([{"o": "open", "s": 1, "u": 17, "to": to}, {"o": "open", "s": 2, "u": 18, "to": 3}, S(2), S(4, 50), S(1), R, T, R, A(4), R, {"o": "adv", "ms": to - 60 if to > 60 else 1}, R] + drain(3))
    # every function with a timeout below and above the default one of its session
    fns = [{"fn": f, "a": 40 + f, "n": 9} for f in (1, 2, 3, 4)] + [{"fn": 5, "a": 45, "x": 1}, {"fn": 6, "a": 46, "x": 7}, {"fn": 15, "a": 55, "vs": [1, 0, 1]}, {"fn": 16, "a": 56, "vs": [5, 6]}]
    for to in (3, 500, None):
        for end in ([T], [{"o": "adv", "ms": 2}], [{"o": "adv", "ms": 99}], [X], None):
            for i, f in enumerate(fns):
                ops = o1 + [dict({"o": "sub", "s": 1, "k": 1, "rq": f}, **({} if to is None else {"to": to})), R]
                out.append(ops + (end or [A(1)]) + [R] + drain(2))
    return [{"id": "n%d" % i, "ops": x} for i, x in enumerate(out)]


def wrap(n):
    o1 = [{"o": "open", "s": 1, "u": 17, "to": 100}]
    S = lambda k: {"o": "sub", "s": 1, "k": k, "rq": rq(k), "to": 50}
    tail = [S(300 + k) for k in range(1, 7)] + [{"o": "run"}]
    for k in range(1, 7):
        tail += [{"o": "ans", "k": 300 + k, "dt": 65535}, {"o": "ans", "k": 300 + k, "dt": 1}, {"o": "ans", "k": 300 + k}, {"o": "run"}]
    return {"id": "wrap%d" % n, "ops": o1 + [S(301 + 100), {"o": "run"}, {"o": "ans", "k": 401}, {"o": "burn", "s": 1, "n": n}] + tail + drain(2)}


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("client", prop)
    exe = vt.build("h_client", ["h_client.cpp"], opt="-O1", extra=("-fsanitize=address", "-fno-omit-frame-pointer"), only=CLIENT)
    paths = model(prop, tier, cov)
    limit = 6000 if q else 60000
    if len(paths) > limit:
        paths = r.sample(paths, limit)
    scs = [{"id": "m%d" % i, "ops": from_model(p) + drain(6)} for i, p in enumerate(paths)]
    scs += race_scenarios()
    scs += long_runs(q)
    g = Gen(r)
    n = 400 if q else 8000
    scs += [g.one("r%d" % i, r.choice([15, 30, 60]), polls=r.random() < 0.3, shut=r.random() < (0.7 if prop == "C06" else 0.3)) for i in range(n)]
    if prop in ("C01", "C02", "C03"):
        scs.append(wrap(65532))
    vt.decide(prop, cov, exe, scs, "Trace_Client", harness_env={"ASAN_OPTIONS": "detect_leaks=0"})
    cov["rule"] = ("every transition of the bounded model of the client channel (shortest path to its source, then the operation) sampled to the tier's limit; "
                   "schedules around queued timer actions, errors and shutdown; seeded random histories; one history across the wrap of the transaction identifier")
