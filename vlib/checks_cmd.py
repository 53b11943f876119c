"""C34: the command line means what it says."""
import json, os, struct, subprocess
from . import asm
from .checks import check, mc, rng, XL
from .core import Config, Scen
from .checks_host import TOHOST, FROMHOST, BLOCK
from .prog import Prog, T0, T1, T2, S0, S1, A7

BASE, OUT, ROOM = 0x80000000, 0x80003100, 400


def program(xlen, letter):
    """four entries; prints BEL, a letter, some of the kernel and of the initrd, and its arguments"""
    p = Prog(xlen, TOHOST)
    for k in range(4):
        p(asm.addi(A7, 0, ord(letter) + k)).j("common")
        p(asm.addi(0, 0, 0), asm.addi(0, 0, 0))
    p.label("common").li(S0, OUT)
    p(asm.addi(T0, 0, 7), asm.store(0, S0, T0, 0), asm.store(0, S0, A7, 1))
    for at, o in ((BASE + (0x400000 if xlen == 32 else 0x200000), 4), (BASE + 0x7fffeff8, 12)):
        p.li(S1, at)
        for k in (0, 4):
            p(asm.load(2, T0, S1, k), asm.store(2, S0, T0, o + k))
    p.li(T1, TOHOST).li(T2, FROMHOST)
    for k, block in enumerate((BLOCK, BLOCK + 64)):
        p.li(T0, block)
        p(asm.store(2, T1, 0, 4), asm.store(2, T1, T0, 0))
        p.label("wait%d" % k)(asm.load(2, T0, T2, 0)).beq(T0, 0, "wait%d" % k)
        p(asm.store(2, T2, 0, 0))
    p.exit(ord(letter) & 31)
    blocks = struct.pack("<8Q", 2011, OUT + 20, ROOM, 0, 0, 0, 0, 0) + struct.pack("<8Q", 64, 1, OUT, ROOM + 20, 0, 0, 0, 0)
    return asm.elf(xlen, [(BASE, p.bytes(), None, 1), (BLOCK, blocks, None, 1)], BASE, {"tohost": TOHOST, "fromhost": FROMHOST})


class Line(Config):
    """a command line, and the files there are"""

    def __init__(self, name, argv, files, intent):
        """intent: what the generator means by it: None, or (program, kernel, initrd, pc) if it is to be run"""
        e, kernel, initrd, pc = intent or (b"", None, None, None)
        xlen = 32 if e and e[4] == 1 else 64
        Config.__init__(self, xlen, e, kernel=kernel, initrd=initrd, pc=pc, name=name, inert=intent is None)
        self.argv, self.files = argv, files

    def record(self):
        return dict(Config.record(self), elf=[], kernel=[], initrd=[], pc=[], level="nolog", log=0, argv=self.argv,
                    files=[[n, list(d)] for n, d in self.files])


class Command(Scen):
    """the emulator started with a command line"""

    def __init__(self, cfg):
        Scen.__init__(self, "cmd", cfg.xlen, cfg)

    def text(self):
        return "# carron %s\nS %s\nE\n" % (json.dumps(self.cfg.argv), self.full())

    def execute(self, c, k):
        d = c.path("cmd%d" % self.cfg.number)
        os.makedirs(d, exist_ok=True)
        for n, b in self.cfg.files:
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
        try:
            r = subprocess.run([c.carron] + self.cfg.argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               cwd=d, timeout=30)
            status, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            status, out = -1000, (e.stdout or b"")[:1 << 20]
        mark = out.find(b"elfcheck: OK\n\n")
        lines = out[mark + 14:].decode("latin1").split("\n") if mark >= 0 and b"\x07" not in out else []
        tail = lines.pop() if lines else ""
        if tail:
            lines.append(tail + "<no newline>")
        ev = [{"k": "R", "n": 200}] if not self.cfg.inert else []
        ev.append({"k": "C", "out": list(out), "lines": lines, "status": status})
        return json.dumps({"id": self.full(), "rv": self.xlen, "cf": k, "win": [], "ev": ev}, separators=(",", ":")) + "\n"


SPELL = {"e": ("-e", "--elfhead"), "p": ("-p", "--program"), "s": ("-s", "--section"), "d": ("-d", "--disasem"), "a": ("-a", "--all")}
LEVELS = ("nolog", "diff", "info", "debug", "trace")
ARGS = ("a", "bc", "", "-", "x=y", "two words", "kern", "0x10", "~!{}", "help", "nolog", "q" * 40)
HIDDEN = ("-e", "--pc", "--pk=z", "-h", "--", "-x", "--loglv=trace")


def pc_text(r, v, xlen):
    t = "%x" % v
    if r.random() < .3:
        t = t.upper()
    if r.random() < .25:
        t = "0" * r.choice((1, 8, 20)) + t
    return r.choice(("", "0x")) + t


def command_line(r, k, files):
    """(argv, intent, key)"""
    there = dict(files)
    kind = r.choice(("run",) * 11 + ("look",) * 4 + ("no",) * 6 + ("about",)) if k >= 40 else ("run", "run", "look", "no")[k % 4]
    elfs = [n for n in there if there[n][:4] == b"\x7fELF"]
    main, name = r.choice(elfs), None
    pk = r.random() < .3
    name = r.choice(elfs + ["nothing"]) if pk else main
    opts, key = [], [kind]

    def opt(o, v):
        opts.append(["--" + o, v] if r.random() < .5 and not v[:1] == "-" else ["--%s=%s" % (o, v)])
        key.append(o)
    kernel = initrd = pc = None
    if pk:
        opt("pk", main)
    if r.random() < .45:
        kernel = r.choice(("kern", "init", name if name in there else "kern"))
        opt("kernel", kernel)
    if r.random() < .45:
        initrd = r.choice(("kern", "init", "init"))
        opt("initrd", initrd)
    xlen = 32 if there[main][4] == 1 else 64
    if r.random() < .5:
        pc = r.choice((BASE, BASE + 16, BASE + 32, BASE + 48, BASE + 48, 0x1000))
        if xlen == 32 and r.random() < .15:
            pc += 1 << 32
        opt("pc", pc_text(r, pc, xlen))
        if r.random() < .2:
            opts.append(["again", "pc", r.choice(("80000020", "0x80000010", "1000"))])
    level = None
    if r.random() < .5:
        level = r.choice(LEVELS + ("nolog", "diff", "info", "INFO", "", "tracing", "3"))
        opt("loglv", level)
        key.append(level)
        if r.random() < .2:
            opts.append(["again", "loglv", r.choice(LEVELS)])
    pos = [name] + [r.choice(ARGS) for _ in range(r.choice((0, 0, 1, 2, 3, 5)))]
    looks = []
    if kind == "look":
        l = r.choice("epsda")
        looks = [r.choice(SPELL[l])] if r.random() < .8 else [r.choice(SPELL[l]), r.choice(SPELL[l])] if r.random() < .5 else ["-" + l * 2]
        key.append(looks[0])
    no = None
    hide = r.random() < .25
    if kind == "about":
        looks = [r.choice(("-h", "--help", "-V", "--version"))]
        key.append(looks[0])
    if kind == "no":
        no = r.choice(("option", "option", "novalue", "dashvalue", "twice", "two", "two", "valued", "noname", "badpc", "badpc", "kernel", "initrd",
                       "main", "pk", "junk", "junkpk", "emptyname"))
        key.append(no)
        have = {o[0].lstrip("-").split("=")[0] for o in opts}
        if no == "option":
            looks = [r.choice(("--elf", "-x", "--bogus=1", "-P", "--PC=1000", "-pk", "--log=info", "--kernels=kern", "-k"))]
        elif no == "valued":
            looks = [r.choice(("--elfhead=1", "--all=", "--section=x"))]
        elif no == "two":
            a, b = r.sample("epsda", 2)
            looks = ["-" + a + b] if r.random() < .4 else [r.choice(SPELL[a]), r.choice(SPELL[b])]
        elif no == "twice":
            o = r.choice(("pk", "kernel", "initrd"))
            for _ in range(2 - (o in have)):
                opt(o, {"pk": main, "kernel": "kern", "initrd": "init"}[o])
        elif no == "noname":
            pos = []
        elif no == "badpc":
            opts = [o for o in opts if "pc" not in o[0] and o[0] != "again"]
            opt("pc", r.choice(("", "zz", "0X80000000", "x80000000", "00x80000000", "80000000h", "1" * 17, "0x", "8000_0000", " 80000000", "80000000 ")))
        elif no in ("kernel", "initrd"):
            opts = [o for o in opts if not o[0].startswith("--" + no)]
            opt(no, r.choice(("nothing", "Kern", "")))
        elif no in ("pk", "junkpk"):
            opts = [o for o in opts if not o[0].startswith("--pk")]
            opt("pk", r.choice(("nothing", "")) if no == "pk" else r.choice(("kern", "empty", "almost")))
        elif no in ("main", "junk", "emptyname"):
            opts = [o for o in opts if not o[0].startswith("--pk")]
            pos[:1] = [r.choice(("nothing", "PROG")) if no == "main" else r.choice(("kern", "empty", "almost")) if no == "junk" else ""]
    # repeated options come after the first ones
    items = [o for o in opts if o[0] != "again"] + [[l] for l in looks]
    r.shuffle(items)
    for o in opts:
        if o[0] == "again":
            at = next(i for i, x in enumerate(items) if x[0].startswith("--" + o[1]))
            items.insert(r.randrange(at + 1, len(items) + 1), ["--" + o[1], o[2]])
    # (an option that was given before is something else)
    bare = [o for o in ("--kernel", "--pk", "--pc", "--initrd", "--loglv") if not any(x[0].split("=")[0] == o for x in items)] or ["-x"]
    if no == "novalue":
        hide = False
    if no == "dashvalue":
        items.append([r.choice(bare), r.choice(("-e", "--", "--pc=1000", "-5"))])
    # the positional arguments, in order, between the options; what follows "--" is not an option
    rest = []
    if hide:
        n = r.randrange(len(pos) + 1)
        pos, rest = pos[:n], ["--"] + pos[n:] + ([r.choice(HIDDEN) for _ in range(r.randrange(3))] if (pos or []) or len(rest) else [])
        if len(pos) == 0 and no == "noname":
            rest = ["--"]
        key.append("hidden")
    if not (no == "dashvalue") or r.random() < .5:
        for n, t in enumerate(pos):
            lo = 0 if n == 0 else max(i for i, x in enumerate(items) if x[0] == "positional") + 1
            items.insert(r.randrange(lo, len(items) + 1), ["positional", t])
    argv = []
    for x in items:
        argv += x[1:] if x[0] == "positional" else x
    argv += rest
    if no == "novalue":
        argv.append(r.choice(bare))
    runs = kind == "run"
    intent = (there[main], kernel and there[kernel], initrd and there[initrd], pc) if runs else None
    return argv, intent, tuple(key)


@check("C34")
def c34(c):
    r = rng(c)
    c.build(binary=True)
    progs = [("prog", program(64, "a")), ("other", program(64, "p")), ("small", program(32, "A")), ("x.elf", program(32, "P"))]
    out, keys = [], set()
    for k in range(700 if not c.thorough() else 6000):
        files = r.sample(progs, 2) + [("kern", r.randbytes(r.choice((1, 8, 20)))), ("init", r.randbytes(r.choice((3, 8, 20)))),
                                      ("empty", b""), ("almost", b"\x7fELG" + bytes(60))]
        argv, intent, key = command_line(r, k, files)
        out.append(Command(Line("line%d" % k, argv, files, intent)))
        keys.add(key)
    c.model("MCCmd", "MCCmd%s.cfg" % ("5" if c.thorough() else ""))
    c.validate(out)
    return mc(c, distinct_nontrivial=len(keys), rule="distinct (what the command line asks for, options in it, what is wrong with it)")
