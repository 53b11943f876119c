"""Build, record, validate, report."""
import copy, json, os, re, shutil, subprocess, sys, time, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from . import asm
from .ambient import ambient, highhalf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    pass


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Check:
    """one run of the check of one property"""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, seed()
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []
        self.states = 0
        self.traces = 0
        self.events = 0
        self.model_states = 0
        self.model_transitions = 0
        self.samples = []
        self.extra = {}

    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- building the real code ----

    def build(self, binary=False):
        """the driver, with the hooks, from the current tree of /repo"""
        target = os.path.join(HARNESS, "target")
        fp = os.path.join(target, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("carron-") and not d.startswith("carron-driver"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env = dict(os.environ, RUSTFLAGS="--cfg carron_verif", CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", target], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("building the harness failed:\n" + r.stdout[-4000:])
        self.driver = os.path.join(target, "release", "carron-driver")
        if binary:
            self.build_binary()

    def build_binary(self):
        """the emulator itself, without hooks"""
        target = os.path.join(VERIF, "work", "bin-target")
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("carron-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                            "--target-dir", target], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("building the emulator failed:\n" + r.stdout[-4000:])
        self.carron = os.path.join(target, "debug", "carron")

    # ---- recording ----

    def record(self, scens):
        """run scenarios on the real emulator; returns [(configuration number, trace file)]"""
        cfgs = []
        for s in scens:
            if s.cfg not in cfgs:
                cfgs.append(s.cfg)
        jobs, runs = [], []
        for k, g in enumerate(cfgs):
            mine = [s for s in scens if s.cfg is g]
            runs += [(k + 1, s) for s in mine if not s.driven()]
            if g.inert:
                continue
            # (a configuration with program runs only still shows its boot ROM)
            mine = [s for s in mine if s.driven()] or [Scen("boot", g.xlen, g)]
            tag = "%d" % (k + 1)
            opts = g.options(self, tag)
            n = max(1, min(len(mine), 1 + NPROC * len(mine) // len(scens)))
            for q in range(n):
                part = mine[q::n]
                sf = self.path("s%s.%d.txt" % (tag, q))
                with open(sf, "w") as f:
                    for s in part:
                        f.write(s.text())
                jobs.append((k + 1, [self.driver, self.path("e%s.elf" % tag), str(g.xlen), sf,
                                     self.path("t%s.%d.ndjson" % (tag, q)), "cf=" + tag] + opts, len(part), g))
        self.cfgs = cfgs

        def run(j):
            r = subprocess.run(j[1], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               cwd=self.work, timeout=800)
            return j, r
        out = []
        with ThreadPoolExecutor(NPROC) as ex:
            for j, r in ex.map(run, jobs):
                lines = 0
                of = j[1][4]
                if os.path.exists(of):
                    with open(of) as f:
                        lines = sum(1 for _ in f)
                if r.returncode != 0 or lines != j[2]:
                    # the emulator could not even be constructed, or died outside a scenario
                    self.violation("emulator", "%s: the emulator failed before the scenarios ran: rc=%s %s"
                                   % (j[3].name, r.returncode, r.stderr.decode("utf8", "replace")[-500:]), None)
                    raise Stop()
                out.append((j[0], of))
            for k, line in ex.map(lambda a: (a[0], a[1].execute(self, a[0])), runs):
                of = self.path("run%d.ndjson" % len(out))
                with open(of, "w") as f:
                    f.write(line)
                out.append((k, of))
        return out

    # ---- validating ----

    def tlc(self, module, cfg=None, env=None, workers=None, timeout=850, extra=(), heap="12g"):
        meta = self.path("meta-%s-%d" % (module, time.time_ns()))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers",
               str(workers or NPROC), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def validate(self, scens):
        """record the scenarios and check the traces against the specification"""
        byname = {s.full(): s for s in scens}
        assert len(byname) == len(scens)
        for s in scens:
            if s.driven() and not s.plain:
                if s.hi:
                    highhalf(s, self.seed)
                ambient(s, self.seed)
        # long lists are recorded and checked in slices, to bound disk and memory
        slices, cur, size = [], [], 0
        for s in scens:
            cur.append(s)
            size += s.steps()
            if size > 800000:
                slices.append(cur)
                cur, size = [], 0
        if cur:
            slices.append(cur)
        for part in slices:
            self.validate_slice(part, byname)
            if self.violations:
                break

    def validate_slice(self, scens, byname):
        files = self.record(scens)
        shards = []
        total = sum(os.path.getsize(f) for _, f in files)
        limit = min(60 << 20, max(1 << 20, total // 4))
        roms = {}
        for k, f in files:
            if not os.path.exists(f + ".rom"):
                continue
            with open(f + ".rom") as g:
                rom = g.read()
            if roms.setdefault(k, rom) != rom:
                self.violation("rom", "%s: the boot ROM differs between runs" % self.cfgs[k - 1].name, None)
        conf = self.path("configs.ndjson")
        with open(conf, "w") as f:
            for k, g in enumerate(self.cfgs):
                f.write(json.dumps(dict(g.record(), rom=json.loads(roms[k + 1])["rom"] if k + 1 in roms else [])) + "\n")
        o, want, got = None, 0, 0
        for k, f in files:
            with open(f) as i:
                for line in i:
                    if o is None:
                        tf = self.path("shard%d.ndjson" % len(shards))
                        o, want, got = open(tf, "w"), 0, 0
                        shards.append([tf, 0])
                    o.write(line)
                    n = line.count('{"k":"')
                    want += n + 1
                    self.events += n
                    got += len(line)
                    shards[-1][1] = want
                    self.traces += 1
                    if len(self.samples) < 6 and self.traces % 17 == 1:
                        d = json.loads(line)
                        self.samples.append({"scenario": d["id"], "rv": d["rv"], "events": len(d["ev"]),
                                             "first_step": next((e for e in d["ev"] if e["k"] in "SJ"), None)})
                    if got > limit:
                        o.close()
                        o = None
            os.unlink(f)
        if o:
            o.close()

        def run(sh):
            rc, log = self.tlc("Trace", env={"TRACE": sh[0], "CONFIGS": conf}, workers=2, heap="6g")
            if rc in (75, 76) and "OutOfMemory" not in log:
                log = self.stuck(sh[0], log) + log
            os.unlink(sh[0])
            return rc, log
        with ThreadPoolExecutor(4) as ex:
            for sh, (rc, log) in zip(shards, ex.map(run, shards)):
                self.digest(rc, log, sh[1], byname)

    def stuck(self, shard, log):
        """the specification has no meaning for what happened in the trace (on the unchanged tree it always has one)"""
        k = re.findall(r"/\\ sid = (\d+)", log)
        i = re.findall(r"/\\ i = (\d+)", log)
        name = "?"
        if k:
            with open(shard) as f:
                for n, line in enumerate(f):
                    if n + 1 == int(k[-1]):
                        name = json.loads(line)["id"]
        what = log[log.find("Error:"):].split("The behavior up to")[0]
        what = re.sub(r"[^ -~]+|[<>]", " ", re.sub(r"public static .*|Attempted to apply .*|but it produced .*", "", what))
        return '<< "MISMATCH", "%s", %d, the specification cannot follow: %s >>\n' % (
            name, int(i[-1]) + 1 if i else 0, " ".join(what.split())[:300])

    def digest(self, rc, log, want, byname):
        bad = False
        for m in re.finditer(r'<<\s*"MISMATCH",\s*"([^"]*)",\s*(\d+),', log):
            bad = True
            s = byname.get(m.group(1))
            rest = re.split(r'<<\s*"MISMATCH"|\n(?=[A-Z])', log[m.end():m.end() + 3000])[0]
            self.violation(m.group(1), "rv%d scenario %s event %s: %s" % (
                s.xlen if s else 0, m.group(1), m.group(2), " ".join(rest.split())), s)
        st = re.search(r"(\d+) states generated, (\d+) distinct states found", log)
        if st:
            self.states += int(st.group(2))
        if bad:
            return
        if "MISMATCH" in log:
            raise ToolError("unparsed mismatch:\n" + log[log.index("MISMATCH") - 50:][:2000])
        if os.environ.get("VERIF_DEBUG"):
            print(log[:3000], log[log.find("Error:"):][:4000], log[-2000:])
        if rc != 0 or not st:
            raise ToolError("TLC failed (%d):\n%s" % (rc, log[-3000:]))
        if int(st.group(2)) != want:
            raise ToolError("TLC visited %s states, the traces have %d" % (st.group(2), want))

    def model(self, module, cfg=None, **kw):
        """exhaustive check of a model with invariants; returns the log"""
        rc, log = self.tlc(module, cfg, **kw)
        st = re.search(r"(\d+) states generated, (\d+) distinct states found", log)
        if rc != 0 or not st:
            raise ToolError("model %s fails on its own (specification error):\n%s" % (cfg or module, log[-3000:]))
        self.model_transitions += int(st.group(1))
        self.model_states += int(st.group(2))
        return log

    # ---- reporting ----

    def violation(self, name, text, scen):
        self.violations.append((name, text, scen))

    def finish(self, coverage, level):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(coverage)
        cov.setdefault("states", self.model_states + self.states)
        cov.setdefault("transitions", self.model_transitions + self.events)
        cov.setdefault("traces_validated_against_impl", self.traces)
        cov.setdefault("evaluations", self.events + self.model_transitions)
        cov.setdefault("samples", self.samples or ["none"])
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        code = 0
        if self.violations:
            code = 1
            d = os.path.join(VERIF, "work", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s-%d.txt" % (self.prop, os.getpid()))
            with open(rp, "w") as f:
                for name, text, s in self.violations[:20]:
                    f.write("# %s\n" % text)
                    if s is not None and hasattr(s, "cfg") and s.cfg not in TINY.values():
                        f.write("# cfg %s\n" % json.dumps(s.cfg.save()))
                    if s is not None:
                        f.write(s.text() if hasattr(s, "text") else str(s) + "\n")
            for name, text, s in self.violations[:5]:
                print("  " + text[:600])
            if len(self.violations) > 5:
                print("  ... %d in all" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            print("%s %s: held on %d traces, %d events, %d spec states (%.1f s)" % (
                self.prop, self.tier, self.traces, self.events, self.states + self.model_states,
                time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return code


class Stop(Exception):
    pass


class Config:
    """a program with the options it is started with"""

    COUNT = [0]

    def __init__(self, xlen, elf, kernel=None, initrd=None, pc=None, args=(), host=False, base=0x80000000, name=None,
                 pk=False, log=None, quiet=False, inert=False, exact=False):
        self.inert = inert                           # not to be run
        self.exact = exact                           # the log itself is compared
        self.log, self.quiet = log, quiet            # log level; what is printed is not recorded
        self.xlen, self.elf, self.kernel, self.initrd, self.pc = xlen, elf, kernel, initrd, pc
        self.pk = pk
        self.args, self.host, self.base = [bytes(a) for a in args], host, base
        self.number = Config.COUNT[0]
        Config.COUNT[0] += 1
        self.name = name or "config%d" % self.number

    @property
    def filename(self):
        return self.args[1 if self.pk else 0]

    def command(self, c, tag):
        """the program and the options on the command line of the emulator"""
        o = [self.filename.decode()]
        if self.log:
            o += ["--loglv", self.log]
        for k, d in (("kernel", self.kernel), ("initrd", self.initrd)):
            if d is not None:
                o += ["--" + k, c.path(k + tag)]
        # another run may be reading the same file
        whole = c.path(self.args[0].decode())
        part = "%s.%d.%d" % (whole, os.getpid(), threading.get_ident())
        with open(part, "wb") as f:
            f.write(self.elf)
        os.rename(part, whole)
        if self.pk:
            o += ["--pk", self.args[0].decode()]
        if self.pc is not None:
            o += ["--pc", ("%x" if self.number % 2 else "0x%x") % self.pc]
        return o + [a.decode() for a in self.args[2 if self.pk else 1:]]

    def options(self, c, tag):
        """write the files; options for the driver"""
        o = (["host=1"] if self.host else []) + (["log=" + self.log] if self.log else []) + (["quiet=1"] if self.quiet else [])
        with open(c.path("e%s.elf" % tag), "wb") as f:
            f.write(self.elf)
        for k, d in (("kernel", self.kernel), ("initrd", self.initrd)):
            if d is not None:
                with open(c.path(k + tag), "wb") as f:
                    f.write(d)
                o.append("%s=%s" % (k, c.path(k + tag)))
        if self.pc is not None:
            o.append("pc=%x" % self.pc)
        return o + ["arg=" + a.hex() for a in self.args]

    def save(self):
        h = lambda b: None if b is None else bytes(b).hex()
        return {"xlen": self.xlen, "elf": h(self.elf), "kernel": h(self.kernel), "initrd": h(self.initrd),
                "pc": self.pc, "args": [h(a) for a in self.args], "host": self.host, "base": self.base, "log": self.log,
                "quiet": self.quiet, "inert": self.inert, "exact": self.exact}

    @staticmethod
    def load(d):
        b = lambda h: None if h is None else bytes.fromhex(h)
        return Config(d["xlen"], b(d["elf"]), b(d["kernel"]), b(d["initrd"]), d["pc"], [b(a) for a in d["args"]],
                      d["host"], d["base"], log=d.get("log"), quiet=d.get("quiet", False), inert=d.get("inert", False), exact=d.get("exact", False))

    def record(self):
        pc = [] if self.pc is None else [[self.pc >> 16 * i & 0xffff for i in range(4)]]
        return {"xlen": self.xlen, "elf": list(self.elf), "kernel": list(self.kernel or b""), "initrd": list(self.initrd or b""),
                "pc": pc, "args": [list(a) for a in self.args],
                "log": 2 if self.quiet else 3 if self.exact else 1 if self.log else 0, "level": self.log or "nolog", "inert": int(self.inert),
                "argv": [], "files": []}

    def logged(self, level, quiet, exact=False):
        """the same with a log level"""
        g = copy.copy(self)
        g.log, g.quiet, g.exact = level, quiet, exact
        g.number = Config.COUNT[0]
        Config.COUNT[0] += 1
        g.name = "%s %s" % (self.name, level)
        return g


TINY = {x: Config(x, asm.tiny_elf(x), name="tiny%d" % x) for x in (32, 64)}


class Scen:
    """a scenario for the driver"""

    def __init__(self, name, xlen, cfg=None):
        self.cfg = cfg or TINY[xlen]
        self.name, self.xlen = name, xlen
        self.lines = []
        self.wins = []
        self.plain = False       # set: no random circumstances
        self.hi = False          # set: may also run at high virtual addresses

    def full(self):
        """name in the traces"""
        return "%d:%s" % (self.cfg.number, self.name)

    def win(self, off, length):
        self.wins.append((off, length))
        return self

    def driven(self):
        """by the driver"""
        return not hasattr(self, "execute")

    def add(self, line):
        self.lines.append(line)
        return self

    def pc(self, v): return self.add("pc %x" % v)
    def priv(self, v): return self.add("priv %x" % v)
    def csr(self, a, v): return self.add("c %x %x" % (a, v & asm.M64))
    def clint(self, o, v): return self.add("cl %x %x" % (o, v & asm.M64))
    def level(self, i, v): return self.add("lv %x %x" % (i, v))
    def inp(self, b): return self.add("in " + bytes(b).hex())
    def run(self, n=1): return self.add("R %x" % n)
    def spin(self, n): return self.add("J %x" % n)

    def x(self, i, v):
        if i != 0:
            self.add("x %x %x" % (i, v & (asm.M32 if self.xlen == 32 else asm.M64)))
        return self

    def mem(self, addr, data):
        """addr: physical address in DRAM"""
        if data:
            self.add("m %x %s" % (addr - self.cfg.base, bytes(data).hex()))
        return self

    def steps(self):
        """upper estimate of the events"""
        return sum(int(l[2:], 16) + 1 if l[0] == "R" else 1 for l in self.lines if l[0] in "RJ") * 2

    ORDER = {"pc": 0, "priv": 1, "x": 2, "c": 3, "cl": 4, "m": 5, "in": 6, "lv": 7}

    def ordered(self):
        """the pokes between two runs, in the order in which the specification applies them"""
        out, cur = [], []
        for l in self.lines:
            k = l.split(" ", 1)[0]
            if k in self.ORDER:
                cur.append(l)
            else:
                out += sorted(cur, key=lambda l: self.ORDER[l.split(" ", 1)[0]]) + [l]
                cur = []
        return out + sorted(cur, key=lambda l: self.ORDER[l.split(" ", 1)[0]])

    def text(self):
        return "\n".join(["S " + self.full()] + ["W %x %x" % w for w in self.wins] + self.ordered() + ["E", ""])


class Run(Scen):
    """a program run by the emulator itself, as from the command line: its output and status are compared"""

    def __init__(self, name, cfg, options=(), args=(), stdin=(), steps=2000, pk=None, timeout=60):
        Scen.__init__(self, name, cfg.xlen, cfg)
        self.opts, self.more, self.chunks, self.limit, self.timeout = list(options), list(args), list(stdin), steps, timeout
        self.lines = ["R %x" % steps]

    def text(self):
        return "# program run %s\nS %s\nE\n" % (json.dumps(self.opts + self.more), self.full())

    def execute(self, c, k):
        """the trace"""
        try:
            r = subprocess.run([c.carron] + self.cfg.command(c, str(k)) + self.opts + self.more, input=b"".join(self.chunks),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=c.work, timeout=self.timeout)
            status, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            status, out, err = -1000, e.stdout or b"", b"still running"
        mark = b"\nIn file %s\nelfcheck: OK\n\n" % self.cfg.filename
        if not out.startswith(mark):
            ev = [{"k": "X", "msg": "no banner: %r %r" % (out[:200], err[-200:])}]
        else:
            poke = {"k": "P", "pc": [], "prv": -1, "x": [], "csr": [], "cl": [], "mem": [], "lv": [],
                    "in": [list(b) for b in self.chunks]}
            ev = [poke] + [{"k": "R", "n": 100}] * (self.limit // 100 + 1) + [
                {"k": "B", "out": list(out[len(mark):]), "status": status}]
        return json.dumps({"id": self.full(), "rv": self.xlen, "cf": k, "win": [], "ev": ev}, separators=(",", ":")) + "\n"


def main(prop, tier, fn):
    c = Check(prop, tier)
    try:
        cov, level = None, None
        try:
            cov, level = fn(c)
        except Stop:
            cov, level = {"states": 1, "transitions": 1, "traces_validated_against_impl": 0,
                          "evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped early", "samples": ["-"]}, \
                "model_checking"
        return c.finish(cov, level)
    except (ToolError, subprocess.TimeoutExpired) as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        return 2


def setup():
    c = Check("setup", "quick")
    try:
        c.build()
    except ToolError as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    return 0


def replay(path):
    """run the scenarios of a replay file again"""
    c = Check("replay", "quick")
    c.build()
    scens, cur, xlen, cfg = [], None, 64, None
    for line in open(path):
        w = line.split()
        if not w:
            continue
        if line.startswith("# rv"):
            xlen, cfg = int(w[1][2:]), None
        elif line.startswith("# cfg"):
            cfg = Config.load(json.loads(line[6:]))
        elif w[0] == "S":
            cur = Scen(w[1].split(":", 1)[-1], xlen, cfg)
        elif w[0] == "W":
            cur.win(int(w[1], 16), int(w[2], 16))
        elif w[0] == "E":
            if cur.full() not in {s.full() for s in scens}:
                scens.append(cur)
        elif w[0] != "#" and cur is not None:
            cur.add(line.strip())
    try:
        if scens:
            c.validate(scens)
    except Stop:
        pass
    for name, text, s in c.violations:
        print(text)
    shutil.rmtree(c.work, ignore_errors=True)
    print("%d scenarios, %d deviations" % (len(scens), len(c.violations)))
    return 1 if c.violations else 0
