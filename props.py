"""What each check runs."""
import json, os, re
from vlib import *

ASSUMPTIONS = [
    "the specification in /verif/specs states the intended Z80 and library behaviour",
    "host implementations are those of the harness: total, deterministic, non-panicking",
    "integers of recordings fit TLC's 32-bit arithmetic",
]
F = ["a", "f", "b", "c", "d", "e", "h", "l", "af2", "bc2", "de2", "hl2", "ix", "iy", "sp", "pc", "mp", "i", "r",
     "iff1", "iff2", "im", "halt", "ei", "px", "q"]
def fields(*names):
    return {F.index(n) + 1 for n in names}
ALL = set(range(1, 27))
ARCH = ALL - fields("mp", "r", "q", "px", "ei")     # what a program can hold in registers
BUS = {1, 2, 3, 4, 5, 6, 7, 8}

def proj(fields=ARCH, bus=(), ts=False, clk=False, out=True, dbg=False, count=False):
    return dict(Fields=set(fields), BusKinds=set(bus), BusTs=ts, ClkOn=clk, OutOn=out, DbgOn=dbg, CountOn=count)

def steps(ctx, name, projection, shards=8, **kw):
    """Record CPU transitions and validate them against StepTrace."""
    out = ctx.fresh("trace")
    ctx.harness("step", seed=ctx.seed, out=out, shards=shards, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, "StepTrace", "%s.%d" % (out, i), projection, name, chunks=4)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(shards)])
    ctx.stage(name, records=n[0], args=kw, compared={k: (sorted(v) if isinstance(v, set) else v) for k, v in projection.items()})

def T(ctx, quick, thorough):
    return thorough if ctx.thorough() else quick

def limits(ctx, name, shards=8, fields=ALL, only=False, ends=False, **kw):
    out = ctx.fresh("limit")
    ctx.harness("limit", seed=ctx.seed, out=out, shards=shards, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, "LimitTrace", "%s.%d" % (out, i), dict(Fields=set() if ends else fields, BusOn=not only and not ends, ClkOn=not only and not ends, OutOn=not only), name, chunks=4, batch=10)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(shards)])
    ctx.stage(name, records=n[0], args=kw)

CTL_PROPS = ("IrqGuard IrqDisables IrqTaken NmiRule ShadowSet ShadowEnds PrefixEnds HaltStays HaltIdle HaltWakes HaltOpens "
             "RetnRule IffFrame LdAIRule").split()
def control(ctx, relevant, what):
    """Explore Z80Ctl exhaustively, then replay every transition into the real CPU."""
    cfg = ("SPECIFICATION Spec\nVIEW View\nCONSTANTS Dump = TRUE\nINVARIANT TypeOK\nPROPERTY " +
           " ".join("Always" + p for p in CTL_PROPS) + "\nCHECK_DEADLOCK FALSE\n")
    out, bad = ctx.tlc("Z80Ctl", cfg, workers=1, heap="3g")
    if bad:
        raise ToolError("the control model violates its own properties:\n" + out[-2000:])
    kinds = {"step": 0, "irq": 1, "nmi": 2, "code": 3, "halt": 4, "ei": 5, "di": 6, "retn": 7}
    p = ctx.fresh("edges")
    n = 0
    with open(p, "w") as f:
        for l in out.splitlines():
            if l.startswith('"{'):
                e = json.loads(json.loads(l))
                f.write(" ".join(map(str, [kinds[e["k"]], e["fl"], e["irq"], e["vec"], len(e["is"])] + e["is"] + e["pre"] +
                                     [e["acc"], e["out"], e["ts"]] + e["post"] + e["nx"])) + "\n")
                n += 1
    if n < 10000:
        raise ToolError("the control model produced only %d transitions" % n)
    got = ctx.harness("ctl", edges=p)
    hits = 0
    for l in got.splitlines():
        if l.startswith("BAD"):
            m = re.match(r"BAD (\w+) kind=(\d+) fl=(\d) irq=(\d) vec=(\d+) is=\[([\d, ]*)\] acc=(\d) pre=\[([-\d, ]*)\] diff=(.*)", l)
            e = dict(kind=int(m[2]), fl=int(m[3]), irq=int(m[4]), vec=int(m[5]), acc=int(m[7]),
                     ins=[int(x) for x in m[6].split(",") if x.strip()], pre=[int(x) for x in m[8].split(",")])
            d = set()
            for t in m[9].split(","):
                k = t.split(":")[0]
                d.add(F[int(k)] if k.isdigit() else k)
            if relevant(e, d):
                hits += 1
                if hits <= 3:
                    ctx.violate("%s: specified transition not followed by the real CPU: %s" % (what, l), {"transition": l})
    sums = re.findall(r"CTL fl=\d edges=(\d+) walk_steps=(\d+)", got)
    if len(sums) != 3:
        raise ToolError("control replay incomplete:\n" + got[-1000:])
    ctx.traces += sum(int(a) + int(b) for a, b in sums)
    ctx.sample({"stage": "control replay", "transition": [l for l in open(p)][n // 3].strip()})
    ctx.stage("exhaustive control model and its replay", transitions=n, walk_steps=sum(int(b) for a, b in sums))


def tables(ctx, sets, **kw):
    """Exhaustive operand tables judged by ALUTable."""
    out = ctx.fresh("alu")
    shards = 8
    ctx.harness("alu", set=sets, out=out, shards=shards, seed=ctx.seed, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, "ALUTable", "%s.%d" % (out, i), {}, "operand table " + sets, chunks=4, batch=1)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(shards)])
    ctx.stage("operand tables " + sets, rows=n[0])

def forms(ctx):
    got = ctx.harness("forms")
    for l in got.splitlines():
        if l.startswith("BAD"):
            ctx.violate("addressing forms of one operation disagree: " + l, {"line": l})
    m = re.search(r"FORMS (\d+) comparisons (\d+) bad", got)
    if not m:
        raise ToolError("forms: no summary")
    ctx.traces += int(m[1])
    ctx.stage("every addressing form against the tabulated form", forms=int(m[1]), comparisons=int(m[2]))

def c01(ctx):
    tables(ctx, "8")
    forms(ctx)
    steps(ctx, "8-bit arithmetic in every addressing form", proj(ARCH, BUS), group="alu8", k=T(ctx, 12, 300))
def c02(ctx):
    tables(ctx, "w", n=T(ctx, 60000, 1500000))
    steps(ctx, "16-bit arithmetic", proj(ARCH, BUS), group="alu16", k=T(ctx, 150, 3000))
def c03(ctx):
    tables(ctx, "b")
    steps(ctx, "block instructions", proj(ARCH, BUS), group="block", k=T(ctx, 120, 3000))
def c04(ctx):
    steps(ctx, "data transfer", proj(ARCH, BUS), group="data", k=T(ctx, 60, 1500))
def c05(ctx):
    steps(ctx, "control flow", proj(ARCH, BUS), group="control", k=T(ctx, 150, 3500))
def c06(ctx):
    steps(ctx, "prefixes and every opcode", proj(ALL - fields("r", "mp", "q"), BUS), group="prefix", k=T(ctx, 8, 200))
    steps(ctx, "instruction streams", proj(ALL - fields("r", "mp", "q"), BUS), group="none", nseq=T(ctx, 120, 3000), slen=150, mode=1)
def c07(ctx):
    steps(ctx, "clock cycles of every opcode", proj((), (), clk=True, out=False), group="all", k=T(ctx, 8, 200), nirq=T(ctx, 6000, 60000))
    steps(ctx, "clock cycles of instruction streams", proj((), (), clk=True, out=False), group="none", nseq=T(ctx, 60, 2000), slen=150, mode=1)
def c08(ctx):
    steps(ctx, "host accesses of every opcode", proj((), BUS, ts=True, out=False), group="all", k=T(ctx, 8, 200), nirq=T(ctx, 6000, 60000))
    steps(ctx, "host accesses of instruction streams", proj((), BUS, ts=True, out=False), group="none", nseq=T(ctx, 60, 2000), slen=150, mode=1)
def c09(ctx):
    f = fields("r", "i")
    steps(ctx, "refresh of every opcode", proj(f, {1}, out=False), group="all", k=T(ctx, 8, 200), nirq=T(ctx, 9000, 60000))
    steps(ctx, "refresh in instruction streams", proj(f, {1}, out=False), group="none", nseq=T(ctx, 100, 2000), slen=150, mode=2)
    limits(ctx, "refresh in limited runs", n=T(ctx, 600, 6000), len=40, fields=f, only=True)
def c10(ctx):
    f = fields("mp")
    steps(ctx, "MEMPTR of every opcode", proj(f, (), out=False), group="all", k=T(ctx, 8, 200), nirq=T(ctx, 6000, 60000))
    steps(ctx, "MEMPTR of instruction streams and BIT n,(HL)", proj(fields("mp", "f"), (), out=False), group="none", nseq=T(ctx, 100, 2000), slen=150, mode=1)
def c11(ctx):
    tables(ctx, "q")
    f = fields("a", "f", "q", "mp")
    steps(ctx, "instructions that differ between flavours", proj(f, {6}), group="q", k=T(ctx, 120, 3000))
    steps(ctx, "Q after every opcode", proj(fields("f", "q"), (), out=False), group="all", k=T(ctx, 4, 100), nirq=3000)
    steps(ctx, "Q along instruction streams", proj(fields("f", "q"), (), out=False), group="none", nseq=T(ctx, 80, 2000), slen=150, mode=1)
def c12(ctx):
    control(ctx, lambda e, d: e["kind"] == 1 or (e["kind"] == 0 and e["irq"] == 1), "IRQ")
    steps(ctx, "interrupt requests in arbitrary states", proj(ALL, BUS, ts=True, clk=True), group="none", nirq=T(ctx, 40000, 600000), irqk=1)
    steps(ctx, "interrupt requests in instruction streams", proj(ALL - fields("mp", "q"), BUS), group="none", nseq=T(ctx, 120, 3000), slen=150, mode=2)
def c13(ctx):
    control(ctx, lambda e, d: e["kind"] == 2, "NMI")
    steps(ctx, "non-maskable interrupts in arbitrary states", proj(ALL, BUS, ts=True, clk=True), group="none", nirq=T(ctx, 50000, 600000), irqk=2)
def c14(ctx):
    f = {"ei", "px", "acc", "iff1", "iff2", "out"}
    control(ctx, lambda e, d: d & f, "EI shadow and prefixes")
    steps(ctx, "acceptance along instruction streams", proj(fields("ei", "px", "iff1", "iff2"), {7}), group="none", nseq=T(ctx, 150, 4000), slen=150, mode=2)
    limits(ctx, "acceptance in limited runs", n=T(ctx, 1500, 15000), len=50, fields=fields("ei", "px", "iff1", "iff2", "halt", "pc"))
def c15(ctx):
    control(ctx, lambda e, d: e["pre"][22] == 1 or e["ins"] == [118] or e["kind"] == 4, "HALT")
    steps(ctx, "halted states and interrupts", proj(ALL, BUS, ts=True, clk=True), group="none", nirq=T(ctx, 25000, 300000))
    steps(ctx, "HALT in instruction streams", proj(fields("halt", "pc", "r", "ei", "px"), {1}), group="none", nseq=T(ctx, 120, 3000), slen=150, mode=2)
    limits(ctx, "halted limited runs", n=T(ctx, 1200, 15000), len=50)
def c16(ctx):
    limits(ctx, "execute_with_limit is iterated stepping", n=T(ctx, 5000, 50000), len=60)
def c17(ctx):
    limits(ctx, "runs with breaks", n=T(ctx, 1500, 15000), len=40)
    limits(ctx, "runs resumed after every break", n=T(ctx, 1500, 15000), len=50, resume=1)
    steps(ctx, "breaking instructions", proj(ALL, BUS), group="io", k=T(ctx, 100, 1000))
def c18(ctx):
    steps(ctx, "wait states of port accesses", proj((), BUS, ts=True, clk=True), group="io", k=T(ctx, 200, 4000))
    steps(ctx, "wait states of interrupt acknowledges", proj((), BUS, ts=True, clk=True), group="none", nirq=T(ctx, 20000, 300000), irqk=1)
def c19(ctx):
    control(ctx, lambda e, d: d & {"iff1", "iff2", "im"} or e["ins"] in ([237, 87], [237, 95], [237, 69], [237, 77], [237, 85], [237, 125]), "IFF rules")
    tables(ctx, "q")
    steps(ctx, "instructions on the interrupt state", proj(ALL - fields("mp", "q", "r"), BUS), group="iff", k=T(ctx, 250, 3000))
    steps(ctx, "interrupt state along instruction streams", proj(fields("iff1", "iff2", "im", "i", "a", "f"), {7, 8}), group="none", nseq=T(ctx, 100, 3000), slen=150, mode=2)

def dis(ctx, name, **kw):
    out = ctx.fresh("dis")
    ctx.harness("dis", seed=ctx.seed, out=out, shards=8, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, "DisTrace", "%s.%d" % (out, i), {}, name, chunks=4, batch=20)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(8)])
    ctx.stage(name, records=n[0], args=kw)
def c20(ctx):
    dis(ctx, "disassembly listings and debugger reports", k=T(ctx, 9, 120), n=T(ctx, 6000, 100000))

def api(ctx, name, **kw):
    out = ctx.fresh("api")
    ctx.harness("api", seed=ctx.seed, out=out, shards=8, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, "ApiTrace", "%s.%d" % (out, i), {}, name, chunks=4, batch=5)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(8)])
    ctx.stage(name, histories=n[0], args=kw)
def traced(ctx, module, cmd, name, batch=20, **kw):
    """Record with one harness subcommand and validate against one trace module."""
    out = ctx.fresh(cmd)
    ctx.harness(cmd, seed=ctx.seed, out=out, shards=8, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, module, "%s.%d" % (out, i), {}, name, chunks=4, batch=batch)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(8)])
    ctx.stage(name, records=n[0], args=kw)
def c22(ctx):
    traced(ctx, "SnapTrace", "ser", "saves and restores", n=T(ctx, 8000, 120000))
def c21(ctx):
    steps(ctx, "every opcode on the run-time type", proj(ALL, BUS, ts=True, clk=True, dbg=True), group="all", k=T(ctx, 3, 80), nirq=T(ctx, 6000, 60000), any=1, dbg=2)
    steps(ctx, "instruction streams on the run-time type", proj(ALL, BUS, clk=True), group="none", nseq=T(ctx, 60, 2000), slen=150, mode=2, any=1)
    limits(ctx, "limited runs on the run-time type", n=T(ctx, 700, 8000), len=50, any=1)
    limits(ctx, "resumed limited runs on the run-time type", n=T(ctx, 300, 4000), len=50, any=1, resume=1)
    api(ctx, "histories of conversions", n=T(ctx, 4000, 60000), len=40, mode=1)
def c23(ctx):
    api(ctx, "histories of accessor calls", n=T(ctx, 12000, 150000), len=50)
def c24(ctx):
    traced(ctx, "HostTrace", "clock", "clock histories and default hosts", n=T(ctx, 2000, 40000), len=40)
    P = proj(ALL, BUS, ts=True, clk=True, dbg=True)
    for w in (1, 2, 3):
        steps(ctx, "every opcode through forwarding wrappers %d" % w, P, group="all", k=T(ctx, 1, 40), nirq=T(ctx, 1500, 20000), dbg=2, wrap=w)
        limits(ctx, "limited runs through forwarding wrappers %d" % w, n=T(ctx, 250, 4000), len=40, wrap=w)
    steps(ctx, "every opcode counted by the ready-made clock", P, group="all", k=T(ctx, 1, 40), nirq=T(ctx, 1500, 20000), dbg=2, wrap=4)
    limits(ctx, "limited runs counted by the ready-made clock", n=T(ctx, 250, 4000), len=40, wrap=4)
def c25(ctx):
    traced(ctx, "NamesTrace", "tables", "names, codes and helpers", n=T(ctx, 12000, 400000))
def c26(ctx):
    P = proj(ALL, BUS, ts=True, clk=True, dbg=True)
    steps(ctx, "every opcode with and without a debugger", P, group="all", k=T(ctx, 8, 160), nirq=T(ctx, 12000, 120000), dbg=2)
    steps(ctx, "instruction streams with and without a debugger", P, group="none", nseq=T(ctx, 120, 3000), slen=150, mode=2, dbg=2)
def c27(ctx):
    P = proj(ALL, BUS, ts=True, clk=True)
    steps(ctx, "every opcode under a user-defined flavour", P, group="all", k=T(ctx, 12, 240), nirq=T(ctx, 10000, 120000), fl=3)
    steps(ctx, "instruction streams and resets under a user-defined flavour", P, group="none", nseq=T(ctx, 100, 3000), slen=150, mode=2, fl=3, resets=1)
    limits(ctx, "limited runs under a user-defined flavour", n=T(ctx, 800, 8000), len=50, own=1)
    limits(ctx, "resumed limited runs under a user-defined flavour", n=T(ctx, 300, 4000), len=50, own=1, resume=1)
def c28(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Wide = %s\nINVARIANT Bounded\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if ctx.thorough() else "FALSE")
    out, bad = ctx.tlc("Z80Bounds", cfg, workers=4, heap="3g")
    if bad:
        raise ToolError("the bounds do not hold of the specification itself:\n" + out[-2000:])
    ctx.stage("bounds of every transition of the specification")
    P = proj((), (), out=True, count=True)
    steps(ctx, "cost of every opcode", P, group="all", k=T(ctx, 8, 200), nirq=T(ctx, 12000, 120000))
    steps(ctx, "cost along instruction streams", P, group="none", nseq=T(ctx, 120, 3000), slen=150, mode=1)
    steps(ctx, "cost along interrupted streams", P, group="none", nseq=T(ctx, 60, 2000), slen=150, mode=2, any=1)
    limits(ctx, "runs end at their limit", n=T(ctx, 1000, 12000), len=60, ends=True)

def ral(ctx, name, cmd="bus", module="RalTrace", batch=5, **kw):
    out = ctx.fresh(cmd)
    ctx.harness(cmd, seed=ctx.seed, out=out, shards=8, **kw)
    n = [0]
    def one(i):
        k, _ = validate_trace(ctx, module, "%s.%d" % (out, i), {}, name, chunks=4, batch=batch)
        n[0] += k
        os.remove("%s.%d" % (out, i))
    ctx.parallel([lambda i=i: one(i) for i in range(8)])
    ctx.stage(name, histories=n[0], args=kw)
def c29(ctx):
    ral(ctx, "memory banks and cartridges", focus="mem", n=T(ctx, 8000, 80000), len=80)
def c30(ctx):
    ral(ctx, "PIO histories", focus="pio", n=T(ctx, 6000, 60000), len=80)
    ral(ctx, "PIO, CTC and memory on one bus", focus="mix", n=T(ctx, 4000, 40000), len=100)
def c31(ctx):
    ral(ctx, "CTC histories with observed trigger lines", focus="ctc", n=T(ctx, 6000, 60000), len=80)
    ral(ctx, "CTC channels chained by the ready-made triggers", focus="chain", n=T(ctx, 10000, 80000), len=80)
def c32(ctx):
    ral(ctx, "runner and debugger histories", cmd="run", module="RunTrace", batch=2, n=T(ctx, 2500, 50000), len=40)

RAL = ("harness-ral", "ralh")
CHECKS = { k.upper(): dict(run=v, crate=RAL if k in ("c29", "c30", "c31", "c32") else ("harness", "z80h")) for k, v in list(globals().items()) if re.fullmatch(r"c\d\d", k) }
