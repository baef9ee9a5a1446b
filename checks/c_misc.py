"""Value types: E01 (Expected), E02 (exception codes), I01 (identifiers), L01 (loggers)."""
import json
import vt

PROPS = ["E01", "E02", "I01", "L01"]
SUB = ("UnitIdentifier.cpp", "TransactionIdentifier.cpp", "Ipv4Endpoint.cpp", "messages/ExceptionType.cpp", "messages/ExceptionResponse.cpp",
       "messages/IMessage.cpp")
LIBSUB = lambda p: p in SUB or p.startswith("logging/") or (p.startswith("messages/") and "Exception" in p)
NAMES = ["IllegalFunction", "IllegalDataAddress", "IllegalDataValue", "ServerDeviceFailure", "Acknowledge", "ServerDeviceBusy", "MemoryParityError",
         "GatewayPathUnavailable", "GatewayTargetDeviceFailedToRespond", "Unknown"]
KINDS = ["timeout", "conn", "modbus", "malreq", "malresp", "std", "user", "deep", "int", "invarg", "modsub"]


TYPES = ("tracked", "tracked", "resp", "int", "bool", "uptr", "list", "big", "string")


def typed(k, p):
    """The history for the k-th type: bits hold only 0 and 1, and a type that cannot be copied is moved."""
    t = TYPES[k % len(TYPES)]
    if t == "bool":
        p = [dict(o, v=o["v"] % 2) if "v" in o else o for o in p]
    if t == "uptr" and any(o["e"] == "copy" for o in p):
        t = "tracked"
    # in the end everything is destroyed
    return {"T": t, "ops": p + clean(p)}


def clean(p):
    """Destroys every slot that the history leaves occupied."""
    on = set()
    for o in p:
        if o["e"] in ("val", "exc", "copy", "move"):
            on.add(o["d"])
        elif o["e"] == "del":
            on.discard(o["d"])
    return [{"e": "del", "d": d} for d in sorted(on)]


def random_expected(r, n, nocopy=False):
    """A random history that respects the preconditions of the specification's operations."""
    st = {d: "empty" for d in range(1, 5)}
    ops = []
    while len(ops) < n:
        e = r.choice(["val", "val", "exc", "exc", "slice", "copy", "copy", "move", "mut", "del", "cfail", "vfail"])
        d, s = r.randrange(1, 5), r.randrange(1, 5)
        o = {"e": e, "d": d}
        if nocopy and e == "copy":
            continue
        if e == "val":
            o.update(v=r.choice([0, 1, 2, 7, 100]), rv=r.randrange(2))
            st[d] = "val"
        elif e == "exc":
            o.update(x=r.choice(KINDS), p=r.randrange(9), ptr=r.randrange(2))
            st[d] = "exc"
        elif e in ("copy", "move"):
            if d == s or st[s] not in ("val", "exc"):
                continue
            o["s"] = s
            st[d] = st[s]
            if e == "move":
                st[s] = "moved"
        elif e == "mut":
            if st[d] != "val":
                continue
            o["v"] = r.choice([0, 3, 50])
        elif e == "cfail":
            if st[d] not in ("val", "exc"):
                continue
        elif e == "del":
            if st[d] == "empty":
                continue
            st[d] = "empty"
        ops.append(o)
    return ops


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("misc", prop)
    # the sanitizer turns double destruction and reads of dead values into failures
    exe = vt.build("h_misc", ["h_misc.cpp"], opt="-O1", extra=["-fsanitize=address", "-fno-omit-frame-pointer"], only=LIBSUB)
    scs = []
    if prop == "E01":
        m = vt.model_check("MC_Exp", consts={"Dump": "TRUE", "NS": "2" if q else "3"}, workers=1)
        cov["states"] += m.distinct
        cov["transitions"] += m.generated
        ps = [json.loads(x) for x in m.printed]
        if len(ps) > 40000:
            ps = r.sample(ps, 40000)
        for k, p in enumerate(ps):
            scs.append(dict(typed(k, p), id="m%d" % k))
        for k in range(80 if q else 1500):
            scs.append(dict(typed(k, random_expected(r, 60, nocopy=TYPES[k % len(TYPES)] == 'uptr')), id="r%d" % k))
    else:
        m = vt.model_check("MC_Values", consts={"Dump": "TRUE", "NL": "2" if q or prop != "L01" else "3"}, workers=1)
        cov["states"] += m.distinct
        cov["transitions"] += m.generated
    if prop == "E02":
        scs.append({"id": "parse", "T": "values", "ops": [{"e": "xparse", "b": b} for b in range(256)]})
        for b in range(256):
            scs.append({"id": "p%d" % b, "T": "values", "ops": [{"e": "xparse", "b": b}]})
        for n in NAMES:
            for fc in range(0, 256, 1):
                scs.append({"id": "x%s-%d" % (n, fc), "T": "values", "ops": [{"e": "xenc", "t": n, "fc": fc}]})
    if prop == "I01":
        for v in range(256):
            scs.append({"id": "u%d" % v, "T": "values", "ops": [{"e": "uid", "v": v}]})
        tids = sorted(set(list(range(0, 260)) + list(range(4090, 4100)) + list(range(32760, 32776)) + list(range(65270, 65536))
                          + [r.randrange(65536) for _ in range(3000)])) if q else list(range(65536))
        for k in range(0, len(tids), 50):
            scs.append({"id": "t%d" % k, "T": "values",
                        "ops": [{"e": "tid", "v": v, "with": [v, (v + 1) % 65536, (v + 256) % 65536, v ^ 0x8000, r.randrange(65536)]} for v in tids[k:k + 50]]})
        scs.append({"id": "tids", "T": "values", "ops": [{"e": "tids"}]})
        for lo in range(0, 65536, 1024):
            scs.append({"id": "teq%d" % lo, "T": "values", "ops": [{"e": "teq", "lo": lo, "hi": lo + 1023, "all": 0 if q else 1}]})
        hosts = ["127.0.0.1", "127.0.0.2", "localhost", "", "0.0.0.0", "example.org", "Example.org", "127.0.0.1 ", "a~b", "a~c", "a", "::1", "a-name-that-is-longer-than-a-small-string.example.org", "a-name-that-is-longer-than-a-small-string.example.orG"]
        ports = [0, 1, 502, 503, 758, 20502, 65535, 65536, 65536 + 502, 2 ** 31 + 502, 2 ** 32 - 1]
        for a in hosts:
            for b in hosts:
                scs.append({"id": "e%s/%s" % (a, b), "T": "values", "ops": [{"e": "ep", "h1": a, "p1": p, "h2": b, "p2": s} for p in ports for s in ports]})
    if prop == "L01":
        ps = [json.loads(x) for x in m.printed]
        ps = [p for p in ps if p[-1]["e"] == "log"]
        for k, p in enumerate(ps):
            p[-1].update(args=k % 2, word=("text", "two words", "{}", "x" * 300)[k % 4] if k % 2 == 0 else ("w", "", "y" * 200)[k % 3], num=k % 256)
            if p[-1]["word"] == "{}" and p[-1]["args"]:
                p[-1]["word"] = "braces"
            scs.append({"id": "m%d" % k, "T": "log", "ops": p})
        for k in range(80 if q else 1500):
            ops, n, con, gone = [], 0, 0, set()
            for _ in range(40):
                c = r.random()
                if n == 0 or (c < 0.15 and n < 8):
                    ops.append({"e": "lroot", "sink": r.choice([0, 1, 2, 4] + ([3] if con < 2 else [])), "level": r.randrange(6), "had": r.randrange(6)})
                    con += ops[-1]["sink"] == 3
                    if ops[-1]["sink"] != 3 and r.random() < 0.3:
                        ops[-1]["name"] = r.choice(["", "same", "same", "two words", "n" * 100, "n1", "n2", "n3"])
                    if ops[-1]["sink"] == 0:
                        ops[-1]["level"] = 2
                    n += 1
                elif c < 0.3 and n < 8:
                    s = r.randrange(1, n + 1)
                    if s in gone:
                        continue
                    ops.append({"e": "lclone", "s": s, "level": r.randrange(-1, 6)})
                    if r.random() < 0.3:
                        ops[-1]["name"] = r.choice(["", "same", "same", "two words", "n" * 100, "n1", "n2", "n3"])
                    n += 1
                elif n - len(gone) > 1 and c < 0.34:
                    # those derived from it must go on without it
                    d = r.randrange(1, n + 1)
                    if d not in gone:
                        gone.add(d)
                        ops.append({"e": "ldrop", "d": d})
                else:
                    d = r.randrange(1, n + 1)
                    if d in gone:
                        continue
                    ops.append({"e": "log", "d": d, "level": r.randrange(6), "args": r.randrange(2), "word": r.choice(["w%d" % r.randrange(1000), "", " ", "a%sb%d", "x" * r.randrange(1, 600), "tail\\"]), "num": r.randrange(256)})
            scs.append({"id": "r%d" % k, "T": "log", "ops": ops})
        # loggers that share a name, also with one that spdlog has registered
        for k in (1, 3, 4, 0):
            for j in (0, 1, 2, 4):
                for l in (0, 2, 5):
                    ops = [{"e": "lroot", "sink": 3, "level": 0, "name": "same"}, {"e": "lroot", "sink": j, "level": l if j else 2, "name": "same"},
                           {"e": "lclone", "s": 2, "level": 5 - l, "name": "same"}, {"e": "lclone", "s": 1, "level": l, "name": "same"}, {"e": "lclone", "s": 4, "level": 3, "name": "other"}]
                    ops = ops if k == 3 else ops[1:2] + [{"e": "lclone", "s": 1, "level": 5 - l, "name": "same"}, {"e": "lroot", "sink": k, "level": 2, "name": "same"}]
                    n = len(ops)
                    for lv in range(6):
                        ops += [{"e": "log", "d": d, "level": lv, "args": (d + lv) % 2, "word": "w", "num": 9} for d in range(1, n + 1)]
                    scs.append({"id": "same%d-%d-%d" % (k, j, l), "T": "log", "ops": ops})
    vt.decide(prop, cov, exe, scs, "Trace_Values", harness_env={"ASAN_OPTIONS": "detect_leaks=0"})
    cov["rule"] = {"E01": "every operation in every content of the modelled slots, then random histories; all slots observed after each step, live values counted, AddressSanitizer on",
                   "E02": "all 256 code bytes, every exception type with all 256 function codes",
                   "I01": "all 256 unit identifiers against each other; transaction identifiers (all 65536 in the thorough tier); endpoint pairs",
                   "L01": "every message level on every logger of the model's states, then random trees of clones"}[prop]
