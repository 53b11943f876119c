"""C31: the log level only adds text to what is printed.  C33: the log tells what happens."""
import random
from . import checks_dev, checks_host
from .checks import XL, CHECKS, check, mc, rng
from .core import Config, Run, Scen, TINY

LEVELS = ("info", "debug", "trace", "diff")


class Collected:
    """stands for a run of another property's check: keeps its scenarios"""

    def __init__(self, c, prop):
        self.prop, self.seed, self.tier, self.scens = prop, c.seed + 31000, "quick", []
        self.extra = {}

    def thorough(self):
        return False

    def build(self, binary=False):
        pass

    def model(self, module, cfg=None, **kw):
        return ""

    def validate(self, scens):
        self.scens += scens


def sample(c, r, prop, n):
    k = Collected(c, prop)
    CHECKS[prop](k)
    l = sorted(k.scens, key=lambda s: s.steps())
    return r.sample(l[:max(n, len(l) * 9 // 10)], min(n, len(l)))


@check("C31")
def c31(c):
    r = rng(c)
    c.build(binary=True)
    m = 8 if c.thorough() else 1
    out, keys, cfgs = [], set(), {}

    def put(s, level, quiet):
        g = (s.cfg.number, level, quiet)
        if g not in cfgs:
            cfgs[g] = s.cfg.logged(level, quiet)
        s.cfg = cfgs[g]
        out.append(s)

    # scenarios of the other properties, the log going nowhere
    for prop, n in (("C01", 12), ("C02", 8), ("C03", 12), ("C04", 12), ("C05", 10), ("C06", 16), ("C07", 12), ("C08", 12), ("C09", 30),
                    ("C10", 24), ("C11", 30), ("C12", 24), ("C13", 16), ("C14", 30), ("C16", 60), ("C17", 30), ("C27", 20), ("C28", 4),
                    ("C29", 4)):
        for s in sample(c, r, prop, n * m):
            s.name = "%s.%s.%d" % (prop, s.name, len(out))
            level = r.choice(LEVELS[:3] * 2 + LEVELS[3:])
            keys.add((prop, s.xlen, level))
            put(s, level, True)

    # what the guest prints is within what is printed
    for k in range(10 * m):
        xlen = XL[k % 2]
        s = Scen("uart%d" % k, xlen)
        for i in range(1, 32):
            s.x(i, r.choice((0x10000000, 0x10000000, 0xc200004, 0x10000002)))
        checks_dev.uart_history(r, s, xlen, 25, keys)
        if k % 5 < 2:
            put(s, r.choice(("info", "diff")), True)
        else:
            s.lines = ["J 40" if l[0] == "J" else l for l in s.lines]
            put(s, r.choice(LEVELS), False)

    # time passes the same
    for k in range(8 * m):
        xlen = XL[k % 2]
        s = Scen("time%d" % k, xlen)
        at = checks_dev.CODE + 0x3c + r.choice((0, 2, 6))
        s.mem(at, checks_dev.asm.w32(checks_dev.asm.SELF)).clint(0xbff8, r.getrandbits(40)).clint(0x4000, r.getrandbits(40))
        s.pc(at).priv(r.choice((1, 3)))
        for _ in range(3):
            s.spin(r.choice((1, 4999, 5000, 5001, 2500))).csr(0xb02, r.getrandbits(20)).run(1)
        level = LEVELS[1 + k // 2 % 2]
        keys.add(("time", xlen, level))
        put(s, level, True)

    # host calls
    host = {x: Config(x, checks_host.host_elf(x), host=True, name="host%d" % x) for x in XL}
    checks_host.NOT_STDOUT = True
    for k in range(50 * m):
        xlen = XL[k % 4 == 0]
        s = checks_host.host_windows(checks_host.Host("h%d" % k, host[xlen]))
        checks_host.tree(r, s)
        pipe = r.random() < .3
        s.stdin(r.randbytes(r.choice((0, 10, 100, 250))), pipe)
        calls = set()
        checks_host.calls(r, s, r.randrange(15, 30), pipe, calls.add)
        s.call(checks_host.MAINVARS, 0x80004400, r.choice((0, 512, 512)), data=[(0x80004400, r.randbytes(64))])
        level = r.choice(LEVELS)
        keys |= {(level, k[0], k[1][0]) for k in calls}
        put(s, level, True)
    checks_host.NOT_STDOUT = False

    # programs run by the emulator itself: same status, and the program's text within the log
    runs = checks_host.exit_programs(r, 8 * m, set())
    for k, s in enumerate(runs):
        level = LEVELS[k % 4]
        put(s, level, False)
        keys.add(("run", s.xlen, level))
    c.validate(out)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (property the scenario comes from or host call or console action, xlen, log level)")


# ---------------------------------------------------------------------------
# C33

THRESHOLD = 350000000


@check("C33")
def c33(c):
    r = rng(c)
    c.build()
    m = 6 if c.thorough() else 1
    out, keys, cfgs = [], set(), {}

    def put(s, level):
        g = (s.cfg.number, level)
        if g not in cfgs:
            cfgs[g] = s.cfg.logged(level, False, True)
        s.cfg = cfgs[g]
        out.append(s)

    # scenarios of the other properties: traps of every kind, interrupts, jumps, faults on fetches, devices
    for prop, n in (("C01", 3), ("C03", 2), ("C04", 3), ("C06", 6), ("C07", 4), ("C08", 4), ("C09", 20), ("C10", 36), ("C11", 10),
                    ("C12", 3), ("C14", 14), ("C16", 14), ("C17", 8), ("C19", 3), ("C21", 4), ("C27", 12), ("C28", 2), ("C29", 3)):
        for s in sample(c, r, prop, n * m):
            if any(l[0] == "J" and int(l[2:], 16) > 50 for l in s.lines):
                continue
            s.name = "%s.%s.%d" % (prop, s.name, len(out))
            level = r.choice(("debug", "trace")) if r.random() < .12 and s.steps() < 60 else "info"
            keys.add((prop, s.xlen, level))
            put(s, level)

    # host calls
    host = {x: Config(x, checks_host.host_elf(x), host=True, name="host%d" % x) for x in XL}
    checks_host.NOT_STDOUT = True
    for k in range(20 * m):
        xlen = XL[k % 4 == 0]
        s = checks_host.host_windows(checks_host.Host("h%d" % k, host[xlen]))
        checks_host.tree(r, s)
        s.stdin(r.randbytes(r.choice((0, 10, 100, 250))), False)
        calls = set()
        checks_host.calls(r, s, r.randrange(15, 30), False, calls.add)
        s.call(checks_host.MAINVARS, 0x80004400, r.choice((0, 512, 512)), data=[(0x80004400, r.randbytes(64))])
        level = r.choice(("info", "info", "trace"))
        keys |= {(level, k[0], k[1][0]) for k in calls}
        put(s, level)
    checks_host.NOT_STDOUT = False

    # the difference log begins late
    for xlen in XL:
        s = Scen("diff%d" % xlen, xlen)
        s.plain = True
        at = checks_dev.CODE + 0x40
        s.mem(at, checks_dev.asm.w32(checks_dev.asm.SELF)).pc(at)
        for i in range(1, 32):
            s.x(i, r.getrandbits(r.choice((1, 31, 32, 63, 64))))
        s.spin(THRESHOLD - 4)
        s.mem(at, b"".join(checks_dev.asm.w32(checks_dev.asm.addi(r.randrange(32), r.randrange(32), r.randrange(-2048, 2048)))
                           for _ in range(12)))
        s.run(12)
        keys.add(("diff", xlen))
        put(s, "diff")
    c.validate(out)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (property the scenario comes from or host call, xlen, log level)")
