"""Requests and answers of the client, byte by byte: C08, C09, C10."""
import copy
import json
import vt
import c_client

PROPS = ["C08", "C09", "C10"]
ASSUMPTIONS = ["answers to write requests are not required to echo the request; their own fields are delivered"]
U, TO = 17, 1000
MX = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}


def W(n):
    return [(n >> 8) & 255, n & 255]


def scenario(id, steps, unit=U):
    """steps: (request, list of answer operations)"""
    ops = [{"o": "open", "s": 1, "u": unit, "to": TO}]
    for k, (rq, ans) in enumerate(steps, 1):
        ops += [{"o": "sub", "s": 1, "k": k, "rq": rq}, {"o": "run"}]
        for a in ans:
            ops += [dict({"o": "ans", "k": k}, **a), {"o": "run"}]
    return {"id": id, "ops": ops + [{"o": "advto"}, {"o": "run"}]}


def batches(prefix, steps, n, r=None):
    """Scenarios of n steps each; addresses are made unique per function within a scenario."""
    out = []
    for i in range(0, len(steps), n):
        out.append(scenario("%s%d" % (prefix, i // n), steps[i:i + n], U if r is None else r.randrange(256)))
    return out


def values(r, fn, n):
    style = r.randrange(4)
    if fn in (15,):
        return [[1] * n, [0] * n, [i % 2 for i in range(n)], [r.randrange(2) for _ in range(n)]][style]
    return [[65535] * n, [i * 257 % 65536 for i in range(n)], [r.choice([0, 1, 255, 256, 65280]) for _ in range(n)], [r.randrange(65536) for _ in range(n)]][style]


def limits(q, r):
    """C08: quantities and value counts, valid and invalid ones mixed."""
    steps = []
    for fn in (1, 2, 3, 4):
        mx = MX[fn]
        if q:
            ns = set(range(0, 140)) | {mx + d for d in range(-3, 4)} | {2 ** i + d for i in range(16) for d in (-1, 0, 1)} | {65536 - d for d in range(1, 8)} | {256 * i for i in range(256)}
            ns |= {(mx + 65536 // 2 ** i) % 65536 for i in range(8)} | set(r.sample(range(65536), 400))
            ns = sorted(n for n in ns if 0 <= n < 65536)
        else:
            ns = list(range(65536))
        r.shuffle(ns)
        steps += [({"fn": fn, "a": 0, "n": n}, [{}]) for n in ns]
    for fn in (15, 16):
        mx = MX[fn]
        if q:
            ns = set(range(0, 40)) | {mx + d for d in range(-3, 4)} | {255, 256, 257, 258, 511, 512, 1024, 2000, 2001, 2040, 2048, 65535, 65536, 65537, 65536 + mx, 65536 + 8, 131073} | set(r.sample(range(1, 2200), 30))
        else:
            ns = set(range(0, 2200)) | {4096, 8192, 32768, 65535, 65536, 65537, 65538, 65536 + mx, 65537 + mx, 65536 + 8, 131072, 131073, 131072 + mx}
        ns = sorted(ns)
        r.shuffle(ns)
        steps += [({"fn": fn, "a": 0, "vs": values(r, fn, n)}, [{}]) for n in ns]
    steps += [({"fn": fn, "a": 0, "x": x}, [{}]) for fn, xs in ((5, (0, 1)), (6, (0, 1, 255, 256, 65280, 65535))) for x in xs]
    big = [s for s in steps if len(s[0].get("vs", ())) > 3000]
    rest = [s for s in steps if len(s[0].get("vs", ())) <= 3000]
    r.shuffle(rest)
    rest = [(dict(rq, a=i % 60000), a) for i, (rq, a) in enumerate(rest)]
    out = batches("q", rest, 150)
    for i, b in enumerate(big):        # large ones between two valid ones
        out.append(scenario("big%d" % i, [({"fn": 3, "a": 1, "n": 1}, [{}]), b, ({"fn": 3, "a": 2, "n": 1}, [{}])]))
    # invalid requests before, between and after queued valid ones
    for i in range(60 if q else 600):
        ops = [{"o": "open", "s": 1, "u": r.randrange(256), "to": TO}]
        ks = []
        for k in range(1, r.choice([3, 5, 8])):
            fn = r.choice([1, 2, 3, 4, 15, 16])
            good = r.random() < 0.5
            n = r.choice([1, MX[fn]]) if good else r.choice([0, MX[fn] + 1])
            ops.append({"o": "sub", "s": 1, "k": k, "rq": {"fn": fn, "a": k, "n": n} if fn <= 4 else {"fn": fn, "a": k, "vs": values(r, fn, n)}})
            ks += [k] if good else []
            if r.random() < 0.3:
                ops.append({"o": "run", "n": 1})
        ops.append({"o": "run"})
        for k in ks:
            ops += [{"o": "ans", "k": k}, {"o": "run"}]
        out.append({"id": "mix%d" % i, "ops": ops + [{"o": "advto"}, {"o": "run"}]})
    return out


def frames(q, r):
    """C09: every field of every request."""
    steps = []
    edge = [0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65279, 65280, 65534, 65535]
    for fn in (1, 2, 3, 4):
        ns = sorted(set(list(range(1, 20)) + [n for n in (63, 64, 65, 124, 125, 126, 127, 128, 255, 256, 257, 511, 512, 1999, 2000) if n <= MX[fn]]))
        if not q:
            ns = range(1, MX[fn] + 1)
        steps += [({"fn": fn, "a": a, "n": n}, []) for n in ns for a in [r.randrange(65536)]]
        steps += [({"fn": fn, "a": a, "n": 1}, []) for a in edge]
    for fn, xs in ((5, [0, 1]), (6, edge)):
        steps += [({"fn": fn, "a": a, "x": r.choice(xs)}, []) for a in edge] + [({"fn": fn, "a": r.randrange(65536), "x": x}, []) for x in xs]
        steps += [({"fn": fn, "a": r.randrange(65536), "x": r.choice([0, 1]) if fn == 5 else r.randrange(65536)}, []) for _ in range(50 if q else 3000)]
    for fn in (15, 16):
        ns = list(range(1, 70)) + [121, 122, 123] if fn == 16 else list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 1000, 1959, 1960, 1961, 1967, 1968]
        if not q or fn == 16:
            ns = range(1, MX[fn] + 1)
        steps += [({"fn": fn, "a": r.randrange(65536), "vs": values(r, fn, n)}, []) for n in ns]
        steps += [({"fn": fn, "a": a, "vs": values(r, fn, 2)}, []) for a in edge]
        # one bit / one word set at every position
        m = 40 if fn == 15 else 12
        steps += [({"fn": fn, "a": r.randrange(65536), "vs": [(1 if fn == 15 else 4660) if i == j else 0 for i in range(m)]}, []) for j in range(m)]
    for s in steps:
        s[1].append({})
    r.shuffle(steps)
    out = []
    # unique (function, address) pairs within a scenario; one scenario per unit identifier
    m = 4 if q else 12
    for i, chunk in enumerate(steps[j:j + m] for j in range(0, len(steps), m)):
        seen, keep = set(), []
        for rq, a in chunk:
            while (rq["fn"], rq["a"]) in seen:
                rq = dict(rq, a=(rq["a"] + 1) % 65536)
            seen.add((rq["fn"], rq["a"]))
            keep.append((rq, a))
        out.append(scenario("f%d" % i, keep, i % 256))
    return out


def right(r, rq):
    fn = rq["fn"]
    if fn <= 2:
        n = (rq["n"] + 7) // 8
        return [fn, n] + [r.randrange(256) for _ in range(n)]
    if fn <= 4:
        return [fn, 2 * rq["n"]] + [r.randrange(256) for _ in range(2 * rq["n"])]
    if fn <= 6:
        return [fn] + W(rq["a"]) + ((W(0xFF00) if rq["x"] else W(0)) if fn == 5 else W(rq["x"]))
    return [fn] + W(rq["a"]) + W(len(rq["vs"]))


def answers(q, r):
    """C10: right answers of every size, and every kind of damage."""
    steps = []
    for fn in (1, 2, 3, 4):
        ns = range(1, MX[fn] + 1) if not q else sorted(set(list(range(1, 40)) + r.sample(range(1, MX[fn] + 1), 30) + [MX[fn] - 1, MX[fn]]))
        for n in ns:
            rq = {"fn": fn, "n": n}
            steps += [(rq, right(r, rq))]
            b = right(r, rq)
            steps += [(rq, b[:-1]), (rq, b + [0]), (rq, [fn, b[1] + 1 & 255] + b[2:] + [7]), (rq, [fn, b[1] - 1 & 255] + b[2:-1])]
    reqs = [{"fn": f, "n": n} for f in (1, 2) for n in (1, 8, 9, 17, 2000)] + [{"fn": f, "n": n} for f in (3, 4) for n in (1, 2, 3, 125)]
    reqs += [{"fn": 5, "x": 1}, {"fn": 5, "x": 0}, {"fn": 6, "x": 4660}, {"fn": 15, "vs": [1] * 9}, {"fn": 16, "vs": [5, 6]}]
    for rq in reqs:
        fn = rq["fn"]
        rq = dict(rq)
        b0 = right(r, dict(rq, a=3))
        cut = list(range(0, len(b0))) if len(b0) < 12 else list(range(0, 8)) + [len(b0) // 2, len(b0) - 2, len(b0) - 1]
        steps += [(rq, b0[:k]) for k in cut]
        steps += [(rq, b0 + [r.randrange(256) for _ in range(k)]) for k in (1, 2, 3, 8) if len(b0) + k <= 253]
        for c in range(256):
            if q and c % 3 and c not in (0, 1, 2, 255, 254) and abs(c - b0[1]) > 3 and c not in (b0[1] * 2, b0[1] // 2):
                continue
            steps.append((rq, [fn, c] + b0[2:]))                   # byte count or address
            steps.append((rq, [c] + b0[1:]))                       # function code
            steps.append((rq, [fn | 128, c]))                      # exception code
            if len(b0) < 250 and fn <= 4:
                steps.append((rq, [fn, c] + [r.randrange(256) for _ in range(min(c, 251))]))   # consistent in itself
            if fn >= 5:
                steps.append((rq, [fn] + b0[1:3] + [c] + b0[4:]))
                steps.append((rq, [fn] + b0[1:4] + [c]))
        steps += [(rq, x) for x in ([], [fn], [fn | 128], [fn | 128, 2, 0], [fn | 128, 2, 2, 2], [128, 2], [255, 2], [fn ^ 3 | 128, 2], [0, 0])]
    for _ in range(600 if q else 20000):
        rq = r.choice(reqs)
        b = right(r, dict(rq, a=r.randrange(65536)))
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < 0.3 and b:
                b[r.randrange(len(b))] = r.randrange(256)
            elif x < 0.5:
                b = b[:r.randrange(len(b) + 1)]
            elif x < 0.7:
                b = b + [r.randrange(256) for _ in range(r.choice([1, 2, 5]))]
            elif x < 0.8 and b:
                del b[r.randrange(len(b))]
            elif x < 0.9 and b:
                b[0] ^= r.choice([128, 1, 2, 4])
            else:
                b.insert(r.randrange(len(b) + 1), r.randrange(256))
        steps.append((rq, b[:253]))
    r.shuffle(steps)
    out = []
    addrs = [0, 1, 255, 256, 65535, 65534, 65000, 32768]
    for i in range(0, len(steps), 25):
        part = []
        base = r.randrange(60000)
        for j, (rq, b) in enumerate(steps[i:i + 25]):
            a = addrs[j] if j < len(addrs) else base + j
            more = [{"pdu": right(r, dict(rq, a=a))}] if r.random() < 0.3 else []      # a second, correct answer comes too late
            part.append((dict(rq, a=a), [{"pdu": b}] + more))
        seen, keep = set(), []
        for rq, a in part:
            while (rq["fn"], rq["a"]) in seen:
                rq = dict(rq, a=(rq["a"] + 1) % 65536)
            seen.add((rq["fn"], rq["a"]))
            keep.append((rq, a))
        out.append(scenario("a%d" % (i // 25), keep, r.randrange(256)))
    return out


def selftest(prop, exe):
    """The binding has teeth: recorded traces, altered in one observation, are reported."""
    sc = [scenario("x", [({"fn": 3, "a": 5, "n": 2}, [{}]), ({"fn": 15, "a": 6, "vs": [1, 0, 1]}, [{}]), ({"fn": 3, "a": 7, "n": 126}, []), ({"fn": 1, "a": 7, "n": 9}, [{"pdu": [1, 2, 255, 1]}])])]
    t = vt.run_harness(exe, sc, env={"ASAN_OPTIONS": "detect_leaks=0"})[0]
    alt = []
    for i, e in enumerate(t["ev"]):
        if prop == "C09" and e["e"] == "tx":
            for j in range(2, len(e["b"])):
                x = copy.deepcopy(t)
                x["ev"][i]["b"][j] ^= 1
                alt.append(x)
        if prop == "C10" and e["e"] == "done" and e["r"]["k"] == "val":
            for j in range(len(e["r"]["vs"])):
                x = copy.deepcopy(t)
                x["ev"][i]["r"]["vs"][j] ^= 1
                alt.append(x)
            x = copy.deepcopy(t)
            x["ev"][i]["r"] = {"k": "mal"}
            alt.append(x)
        if prop == "C08" and e["e"] == "done" and e["r"]["k"] == "malreq":
            x = copy.deepcopy(t)
            x["ev"][i]["r"] = {"k": "mal"}
            alt.append(x)
            x = copy.deepcopy(t)
            x["ev"].insert(i, copy.deepcopy(e))
            alt.append(x)
            x = copy.deepcopy(t)
            del x["ev"][i]
            alt.append(x)
    for i, x in enumerate(alt):
        x["id"] = i
    if any(e["e"] in ("crash", "hang") for e in t["ev"]):
        return
    tr = vt.validate("Trace_Client", [dict(t, id="good")] + alt)
    bad = {b[0] for b in tr.bad if prop in b[2] or (prop == "C09" and "C02" in b[2])}
    if "good" in bad:
        return                                # the code itself is broken: the check proper reports it
    if not alt or len(bad) < len(alt):
        raise vt.CheckError("%d of %d altered traces are not reported: the binding is vacuous" % (len(alt) - len(bad), len(alt)))


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("codec", prop)
    exe = vt.build("h_client", ["h_client.cpp"], opt="-O1", extra=("-fsanitize=address", "-fno-omit-frame-pointer"), only=c_client.CLIENT)
    m = vt.model_check("MC_Codec", consts=None if q else {"MaxN": "11"})
    cov["states"] += m.distinct
    cov["transitions"] += m.generated
    selftest(prop, exe)
    scs = {"C08": limits, "C09": frames, "C10": answers}[prop](q, r)
    vt.decide(prop, cov, exe, scs, "Trace_Client", harness_env={"ASAN_OPTIONS": "detect_leaks=0"}, batch=150000)
    cov["rule"] = cov.get("rule", "") + {
        "C08": "; every quantity 0..65535 of the four reads in the thorough tier (boundaries, multiples and random ones in the quick tier) and value counts up to and beyond 65536, between valid requests",
        "C09": "; every quantity and value count up to the limits in the thorough tier (all small ones and the boundaries in the quick tier), boundary addresses and values, every unit identifier",
        "C10": "; right answers of every size, every truncation, extensions, all 256 values of function code, byte count and exception code, random damage"}[prop]
