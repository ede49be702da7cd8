"""What each property's check does."""
import json, os, shutil
import lib

MODEL = "model_checking"

# Bounds of generated behaviours; keys 1..4 are bound to concrete keys by the harness.
SIM = dict(NK=4, MaxCommits=30, MaxImm=3, MaxSst=30, MaxSeg=30, MaxSnap=3, MaxTxn=4, MaxOpen=3,
           MaxBatch=3, Dups=True, Emit=True)
SYS_INV = ("ReadsCurrent", "SnapshotsStable", "Recoverable", "NoPhantoms")


def system_model(ctx, name, acts, depth, inv=SYS_INV + ("NoLostUpdate",), **over):
    c = dict(NK=2, Acts=acts, Depth=depth, MaxCommits=4, MaxImm=2, MaxSst=4, MaxSeg=3, MaxSnap=1,
             MaxTxn=2, MaxOpen=2, MaxBatch=2, Dups=False, Emit=False)
    c.update(over)
    ctx.add_model(name, lib.model_check("Tonbo", name, c, inv, view="StateView",
                                        timeout=max(120, ctx.left())))


def replay(ctx, name, acts, depth, num, fan_every=40, profiles=None, cmd="replay", **over):
    num *= 2
    c = dict(SIM, Acts=acts, Depth=depth)
    extra = {k: over.pop(k) for k in list(over) if k.startswith("x_")}
    c.update(over)
    lines = lib.simulate("Tonbo", name, c, num, depth, ctx.seed, SYS_INV if c["NK"] <= 4 else ())
    ctx.samples.append([{k: v for k, v in s.items() if k in ("op", "rows", "id", "k", "v", "res", "view")}
                        for s in json.loads(lines[0])][:12])
    f = lib.write_lines(name, lines)
    res = lib.vh(cmd, **{"in": f}, seed=ctx.seed, nk=c["NK"], fan_every=fan_every, profiles=profiles,
                 **{k[2:]: v for k, v in extra.items()})
    ctx.add_result(name, res, "replay of behaviours from Tonbo.tla")


W = ["ingest", "seal", "flush", "compact"]
T = ["begin", "put", "del", "commit", "abort"]
R = ["reopen", "crash"]
L = ["rotate", "prune"]
X = ["tx"]


def c01(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "reads", W, 8 if ctx.thorough else 7)
    replay(ctx, "reads", W, 18, 1200 * n, fan_every=20)
    replay(ctx, "reads-restart", W + X + L + R, 20, 600 * n)
    replay(ctx, "reads-auto", W + T + R, 22, 500 * n, x_auto=1)
    replay(ctx, "reads-all", W + L + R + T + ["snap"], 24, 300 * n)


def c02(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "snap", W + ["snap"], 7 if ctx.thorough else 6)
    replay(ctx, "snap", W + X + ["snap"], 20, 1000 * n)
    replay(ctx, "snap-txn", W + ["snap", "begin", "put", "commit"] + L, 24, 500 * n)
    concurrent(ctx, "snap-conc", 500 * n, True, False)


def c03(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "txn", ["ingest", "seal", "flush"] + T, 7 if ctx.thorough else 6)
    replay(ctx, "txn-mem", ["ingest", "seal"] + T, 20, 900 * n, MaxTxn=5)
    replay(ctx, "txn", W + X + T + R, 24, 600 * n, MaxTxn=6)


def c04(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "conflict", ["ingest", "begin", "put", "del", "commit"], 8 if ctx.thorough else 6)
    replay(ctx, "conflict", ["ingest", "begin", "put", "del", "commit"], 18, 900 * n, MaxTxn=6)
    replay(ctx, "conflict-flushed", W + X + ["begin", "put", "del", "commit"], 22, 900 * n, MaxTxn=6)
    concurrent(ctx, "conflict-conc", 800 * n, True, False)


def c10(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "compact", W + ["snap"], 7 if ctx.thorough else 6)
    replay(ctx, "compact", W, 26, 700 * n, fan_every=12)
    replay(ctx, "compact-pinned", W + X + ["snap", "reopen"], 24, 500 * n)
    concurrent(ctx, "compact-conc", 500 * n, True, False)


def c05(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "durable", ["ingest", "seal", "flush", "compact", "rotate", "prune", "die"],
                 8 if ctx.thorough else 6, MaxOpen=2, MaxCommits=3)
    k = 0 if ctx.thorough else 6
    replay(ctx, "crash-floor", ["ingest", "tx", "seal", "flush", "rotate", "crash"], 18, 1500 * n, MaxOpen=4)
    replay(ctx, "crash", W + X + L + ["die", "reopen"], 24, 700 * n, x_crash_samples=k, MaxOpen=4)
    replay(ctx, "crash-auto", W + L + T + ["die", "reopen"], 24, 500 * n, x_crash_samples=k, x_auto=1, MaxOpen=4)
    replay(ctx, "crash-txn", W + L + T + ["die", "crash"], 24, 500 * n, x_crash_samples=k)
    concurrent(ctx, "crash-conc", 600 * n, True, True)


def c06(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "atomic", ["ingest", "begin", "put", "del", "commit", "die", "rotate"],
                 7 if ctx.thorough else 6, MaxOpen=2, MaxCommits=3, MaxTxn=1)
    k = 0 if ctx.thorough else 16
    replay(ctx, "torn", ["ingest", "tx", "die", "rotate"], 12, 500 * n, x_crash_samples=k, MaxOpen=6)
    replay(ctx, "torn-txn", ["ingest", "begin", "put", "del", "commit", "die", "rotate", "seal", "flush"], 20,
           400 * n, x_crash_samples=k, MaxOpen=5, MaxTxn=6)


def c07(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "damage", ["ingest", "seal", "flush", "compact", "rotate", "prune", "reopen"],
                 8 if ctx.thorough else 6, inv=("FilesHoldPrefix", "Recoverable"), MaxOpen=2)
    replay(ctx, "damage", W + X + L + ["reopen", "damage"], 24, 600 * n)
    replay(ctx, "damage-txn", W + L + T + ["crash", "damage"], 24, 500 * n, MaxOpen=4)


def c08(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "failing", ["ingest", "seal", "flush", "compact", "rotate", "prune", "fail"],
                 8 if ctx.thorough else 6, MaxOpen=2, MaxCommits=3)
    replay(ctx, "fail", W + X + L + T + R + ["snap", "fail"], 24, 700 * n, MaxOpen=5)
    replay(ctx, "fail-files", W + ["fail"], 20, 600 * n, MaxOpen=6)
    replay(ctx, "fail-log", ["ingest", "seal", "flush", "crash", "fail"] + X + L, 18, 500 * n, MaxOpen=6)


def c09(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "refused", W + R, 8 if ctx.thorough else 6)
    replay(ctx, "reject", W + X + R + ["begin", "put", "commit", "reject"], 22, 700 * n)
    replay(ctx, "reject-log", ["ingest", "rotate", "seal", "flush", "crash", "begin", "del", "commit", "reject"], 16, 500 * n)


def c14(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "pushdown", W, 7 if ctx.thorough else 5,
                 inv=("KeyPushdownSafe", "ValuePushdownSafeIfSingle"))
    replay(ctx, "query", W + ["query", "snap"], 20, 700 * n, fan_every=15)
    replay(ctx, "query-txn", W + ["query", "begin", "put", "del", "reopen"], 20, 600 * n, fan_every=30)
    replay(ctx, "query-keys", W + ["query"], 18, 400 * n, NK=8, fan_every=0, profiles="random")


def c15(ctx):
    n = 8 if ctx.thorough else 1
    system_model(ctx, "order", W, 6, NK=3)
    replay(ctx, "order", W + X + R, 18, 700 * n, NK=8, MaxBatch=5, fan_every=0, profiles="random")
    replay(ctx, "order-nonfinite", W + T + R, 18, 300 * n, NK=7, fan_every=0, profiles="f64nan,f32nan")
    replay(ctx, "order-txn", W + T + ["snap", "die"], 22, 500 * n, NK=6, fan_every=0, profiles="random")
    replay(ctx, "order-fan", W, 14, 60 * n, fan_every=1)


def concurrent(ctx, name, num, polite, crash, part=0):
    # a crashed run leaks what its clients held: keep the processes short
    if num > 2500:
        concurrent(ctx, name, num - 2000, polite, crash, part + 1)
        num = 2000
    name += "-%d" % part if part else ""
    out = lib.write_lines(name, [])
    res = lib.vh("conc", n=num, seed=ctx.seed + 100 * part, polite=int(polite), crash=int(crash), out=out)
    ctx.add_result(name, res, "concurrent clients")
    if ctx.failed:
        return
    n, bad, st = lib.judge(name, out)
    ctx.add_model(name, st)
    if not polite and not crash:
        # judged as if it were calm: what is refused now shows the known findings K04 and K05
        with open(out) as f:
            strict = lib.write_lines(name + "-strict", [l.strip().replace('"polite":false', '"polite":true') for l in f])
        if lib.judge(name + "-strict", strict, diagnose=0)[1]:
            ctx.seen.add("window")
    for _, h, at in bad[:3]:
        a, o = h["ev"][at - 1] if at <= len(h["ev"]) else (1, 0)
        op = h["ops"][o - 1] if o else {}
        ctx.fail(name, "no order of commits explains what the clients saw (profile %s, seed %s): event %d, %s"
                 % (h["profile"], h["seed"], at, json.dumps(op)), h)
    with open(out) as f:
        ctx.samples.append([op for op in json.loads(f.readline())["ops"]][:8])


def c16(ctx):
    n = 10 if ctx.thorough else 1
    concurrent(ctx, "conc", 2200 * n, True, False)
    concurrent(ctx, "conc-free", 1200 * n, False, False)
    concurrent(ctx, "conc-crash", 1200 * n, True, True)
    concurrent(ctx, "conc-free-crash", 1200 * n, False, True)


def c18(ctx):
    small = dict(Policies=["always", "bytes", "time", "off"], MaxTime=3, MaxLen=2, MaxSegs=2, MaxAcks=2)
    if ctx.thorough:
        small["MaxLen"] = 3
    ctx.add_model("wal-log", lib.model_check("WalLogMC", "wal-log", small,
                                             ("AlwaysKeepsAll", "NoHole", "TimeBound", "BytesBound"),
                                             timeout=max(120, ctx.left())))
    for part in range(8 if ctx.thorough else 2):
        name = "wal-trace-%d" % part
        out = lib.write_lines(name, [])
        d = os.path.join(lib.SCRATCH, name)
        os.makedirs(d, exist_ok=True)
        res = lib.vh("wallog", n=2000, seed=ctx.seed + 100 * part, dir=d, out=out)
        shutil.rmtree(d, ignore_errors=True)
        ctx.add_result(name, res, "log writer runs")
        if ctx.failed:
            return
        n, bad, st = lib.judge(name, out, module="WalTrace", invariants=("Bounds",))
        ctx.add_model(name, st)
        for _, h, at in bad[:3]:
            e = h["ev"][at - 1] if h and at <= len(h["ev"]) else {}
            ctx.fail(name, "the log writer's storage operations are no behaviour of WalLog.tla (%s): event %d, %s"
                     % (json.dumps(h and h["cfg"]), at, json.dumps(e)), h)
        if ctx.failed:
            return
        with open(out) as f:
            h = json.loads(f.readline())
        ctx.samples.append([h["cfg"]] + h["ev"][:10])


PROPS = {
    "C08": (MODEL, c08), "C09": (MODEL, c09), "C07": (MODEL, c07), "C18": (MODEL, c18),
    "C16": (MODEL, c16),
    "C14": (MODEL, c14), "C15": (MODEL, c15),
    "C05": (MODEL, c05), "C06": (MODEL, c06),
    "C01": (MODEL, c01), "C02": (MODEL, c02), "C03": (MODEL, c03), "C04": (MODEL, c04),
    "C10": (MODEL, c10),
}
