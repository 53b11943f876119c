//! Runs scenarios on the real emulator and records what it does.
//!
//! usage: carron-driver <elf> <xlen> <scenarios> <out.ndjson> [key=value ...]
//!   cf=N           number of this configuration, copied to the traces
//!   kernel=PATH, initrd=PATH, pc=HEX, arg=HEX (bytes, repeated)    as on the command line
//!   host=1         the program uses the host interface: every scenario gets a scratch directory,
//!                  standard streams of its own, and runs as an unprivileged user
//!
//! `Emulator::emulation()` itself runs; the step hook (called before every instruction) applies
//! the pokes of a scenario and records the observable state after each iteration of the loop.
//! Each scenario runs in a child process forked inside the first call of the hook, so all start
//! from the same fresh machine.  One JSON line per scenario is what `Trace.tla` reads.

use carron::cmdline::{Arguments, ExeOption};
use carron::Emulator;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;

const CLINT: u64 = 0x200_0000;
const PLIC: u64 = 0xc00_0000;
const UART: u64 = 0x1000_0000;

#[derive(Clone, Default)]
struct Scenario {
    name: String,
    windows: Vec<(u64, u64)>, // offset from DRAM, length (multiples of 2)
    files: Vec<(String, char, u32, Vec<u8>)>, // path, type, mode, contents or target
    stdin: Vec<u8>,
    pipe: bool,
    cmds: Vec<Vec<String>>,
}

fn hex(s: &str) -> u64 {
    u64::from_str_radix(s, 16).unwrap_or_else(|_| panic!("bad hex {s}"))
}

fn bytes(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn parse(path: &str) -> Vec<Scenario> {
    let text = std::fs::read_to_string(path).unwrap();
    let mut out = Vec::new();
    let mut cur = Scenario::default();
    for line in text.lines() {
        let w: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
        match w.first().map(|s| s.as_str()) {
            None => (),
            Some("S") => {
                cur = Scenario {
                    name: w[1].clone(),
                    ..Default::default()
                }
            }
            Some("W") => cur.windows.push((hex(&w[1]), hex(&w[2]))),
            Some("E") => out.push(std::mem::take(&mut cur)),
            Some("hf") => cur.files.push((
                w[2].clone(),
                w[1].chars().next().unwrap(),
                hex(&w[3]) as u32,
                bytes(w.get(4).map(|s| s.as_str()).unwrap_or("")),
            )),
            Some("hi") => {
                cur.pipe = w[1] == "p";
                cur.stdin = bytes(w.get(2).map(|s| s.as_str()).unwrap_or(""));
            }
            _ => cur.cmds.push(w),
        }
    }
    out
}

fn jw(o: &mut String, v: u64) {
    let _ = write!(
        o,
        "[{},{},{},{}]",
        v & 0xffff,
        v >> 16 & 0xffff,
        v >> 32 & 0xffff,
        v >> 48
    );
}

fn jlist<T>(o: &mut String, items: &[T], mut f: impl FnMut(&mut String, &T)) {
    o.push('[');
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        f(o, it);
    }
    o.push(']');
}

/// What the specification is compared with.
#[derive(Clone)]
struct Obs {
    pc: u64,
    prv: u64,
    x: [u64; 32],
    csr: Vec<u64>,
    mem: Vec<u64>, // the windows, one halfword each
    cl: Vec<u64>,  // the CLINT, one doubleword each
    pl: Vec<u64>,  // PLIC: 1..=31 priorities, 32, 33 enables, 34, 35 thresholds
    ua: Vec<u64>,  // UART registers 1..=255 (0 has side effects)
}

struct Child {
    xlen: u64,
    cf: u64,
    base: u64,
    host: Option<Host>,
    sc: Scenario,
    next: usize,  // next command
    run: u64,     // logged steps left of the current R
    spin: u64,    // unlogged steps left of the current J
    spun: u64,
    logging: bool, // a step was started whose effect is to be logged
    obs: Option<Obs>,
    events: String,
    nev: usize,
    out_fd: i32,
    out_pos: i64,
    result_fd: i32,
}

/// the host side of a scenario
struct Host {
    std: [i32; 3],
    uid: u32,
    last: Vec<(Vec<u8>, [u64; 13])>,
}

fn stat_words(m: &std::fs::Metadata) -> [u64; 13] {
    use std::os::unix::fs::MetadataExt;
    [
        m.dev(),
        m.ino(),
        m.nlink(),
        m.mode() as u64,
        m.uid() as u64,
        m.gid() as u64,
        m.rdev(),
        m.size(),
        m.blksize(),
        m.blocks(),
        m.atime() as u64,
        m.mtime() as u64,
        m.ctime() as u64,
    ]
}

/// all files below a directory, as (path relative to it, metadata)
fn walk(dir: &std::path::Path, rel: &[u8], out: &mut Vec<(Vec<u8>, std::fs::Metadata)>) {
    use std::os::unix::ffi::OsStrExt;
    if let Ok(m) = std::fs::symlink_metadata(dir) {
        let is_dir = m.is_dir();
        out.push((rel.to_vec(), m));
        if is_dir {
            if let Ok(es) = std::fs::read_dir(dir) {
                let mut names: Vec<_> = es.flatten().map(|e| e.file_name()).collect();
                names.sort();
                for n in names {
                    let mut r = rel.to_vec();
                    if !r.is_empty() {
                        r.push(b'/');
                    }
                    r.extend_from_slice(n.as_bytes());
                    walk(&dir.join(&n), &r, out);
                }
            }
        }
    }
}

impl Host {
    fn snapshot(&self) -> Vec<(Vec<u8>, [u64; 13])> {
        let mut out = Vec::new();
        for (i, &fd) in self.std.iter().enumerate() {
            let f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
            out.push((format!("<{i}>").into_bytes(), stat_words(&f.metadata().unwrap())));
        }
        let mut l = Vec::new();
        walk(std::path::Path::new("."), b"", &mut l);
        out.extend(l.iter().map(|(p, m)| (p.clone(), stat_words(m))));
        out
    }

    /// the snapshot, if it is not the one of last time
    fn news(&mut self) -> Option<String> {
        let new = self.snapshot();
        if new == self.last {
            return None;
        }
        let mut o = String::new();
        jlist(&mut o, &new, |o, (p, w)| {
            o.push('[');
            jlist(o, p, |o, b| {
                let _ = write!(o, "{b}");
            });
            for v in w {
                o.push(',');
                jw(o, *v);
            }
            o.push(']');
        });
        self.last = new;
        Some(o)
    }
}

/// in the child: scratch directory, standard streams, unprivileged user
fn enter_host(sc: &Scenario, dir: &str, std: [i32; 3]) -> Host {
    let c = |s: &str| std::ffi::CString::new(s).unwrap();
    const NOBODY: u32 = 65534;
    unsafe {
        libc::umask(0);
        libc::chmod(c(dir).as_ptr(), 0o755);
        std::env::set_current_dir(dir).unwrap();
        libc::chown(c(".").as_ptr(), NOBODY, NOBODY);
        for (path, kind, _, data) in &sc.files {
            match kind {
                'f' => std::fs::write(path, data).unwrap(),
                'd' => std::fs::create_dir(path).unwrap(),
                _ => std::os::unix::fs::symlink(std::str::from_utf8(data).unwrap(), path).unwrap(),
            }
        }
        for (path, kind, mode, _) in sc.files.iter().rev() {
            libc::lchown(c(path).as_ptr(), NOBODY, NOBODY);
            if *kind != 'l' {
                libc::chmod(c(path).as_ptr(), *mode);
            }
        }
        libc::umask(0o22);
        if sc.pipe {
            let mut p = [0; 2];
            assert!(libc::pipe(p.as_mut_ptr()) == 0);
            assert!(libc::write(p[1], sc.stdin.as_ptr() as *const _, sc.stdin.len()) == sc.stdin.len() as isize);
            libc::close(p[1]);
            libc::dup2(p[0], 0);
            libc::dup2(p[0], std[0]);
            libc::close(p[0]);
        } else {
            libc::write(std[0], sc.stdin.as_ptr() as *const _, sc.stdin.len());
        }
        for (i, &fd) in std.iter().enumerate() {
            if i == 0 && sc.pipe {
                continue;
            }
            let n = libc::open(
                c(&format!("/proc/self/fd/{fd}")).as_ptr(),
                if i == 0 { libc::O_RDONLY } else { libc::O_WRONLY | libc::O_APPEND },
            );
            assert!(n >= 0);
            libc::dup2(n, i as i32);
            libc::close(n);
        }
        libc::setgroups(0, std::ptr::null());
        libc::setgid(NOBODY);
        libc::setuid(NOBODY);
        libc::prctl(libc::PR_SET_DUMPABLE, 1, 0, 0, 0);
        Host {
            std,
            uid: libc::getuid(),
            last: Vec::new(),
        }
    }
}

/// in the parent: what is in the files now
fn contents(dir: &str, std: [i32; 3], pipe: bool) -> String {
    // path, length, contents (of long files: the first KiB), of long files: the last KiB
    let mut all: Vec<(Vec<u8>, u64, Vec<u8>, Vec<u8>)> = Vec::new();
    use std::os::unix::fs::FileExt;
    for (i, &fd) in std.iter().enumerate() {
        if i == 0 && pipe {
            continue;
        }
        let mut b = vec![0u8; 1 << 16];
        let n = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), 0) };
        b.truncate(n.max(0) as usize);
        all.push((format!("<{i}>").into_bytes(), n.max(0) as u64, b, vec![]));
    }
    let mut l = Vec::new();
    walk(std::path::Path::new(dir), b"", &mut l);
    for (p, m) in l {
        if m.is_file() {
            use std::os::unix::ffi::OsStrExt;
            let full = std::path::Path::new(dir).join(std::ffi::OsStr::from_bytes(&p));
            let n = m.len();
            if n < 1 << 16 {
                all.push((p, n, std::fs::read(full).unwrap_or_default(), vec![]));
            } else if let Ok(f) = std::fs::File::open(full) {
                let (mut a, mut b) = (vec![0; 1024], vec![0; 1024]);
                let _ = f.read_exact_at(&mut a, 0);
                let _ = f.read_exact_at(&mut b, n - 1024);
                all.push((p, n, a, b));
            }
        }
    }
    let mut o = String::from("{\"k\":\"H\",\"files\":");
    jlist(&mut o, &all, |o, (p, n, a, b)| {
        o.push('[');
        jlist(o, p, |o, x| {
            let _ = write!(o, "{x}");
        });
        o.push(',');
        jw(o, *n);
        for part in [a, b] {
            o.push(',');
            jlist(o, part, |o, x| {
                let _ = write!(o, "{x}");
            });
        }
        o.push(']');
    });
    o.push('}');
    o
}

static mut THE_CHILD: *const std::cell::RefCell<Option<Child>> = std::ptr::null();

/// the guest ended the process: what was recorded so far is the trace
extern "C" fn at_exit() {
    unsafe {
        if let Some(cell) = THE_CHILD.as_ref() {
            if let Ok(mut c) = cell.try_borrow_mut() {
                if let Some(c) = c.as_mut() {
                    c.write_out("", 'E');
                }
            }
        }
    }
}

impl Child {
    fn observe(&self, emu: &mut Emulator) -> Obs {
        let mut x = [0; 32];
        for (i, r) in x.iter_mut().enumerate() {
            *r = emu.cpu.regs.read(Some(i));
        }
        let csr = (0..4096).map(|a| emu.cpu.verif_csr_read(a)).collect();
        let mut mem = Vec::new();
        for &(off, len) in &self.sc.windows {
            for i in 0..len / 2 {
                mem.push(emu.cpu.bus.load_u16(self.base + off + 2 * i).unwrap());
            }
        }
        let bus = &mut emu.cpu.bus;
        let cl = (0..8192).map(|i| bus.load64(CLINT + 8 * i).unwrap()).collect();
        let mut pl = vec![0];
        for i in 1..32 {
            pl.push(bus.load32(PLIC + 4 * i).unwrap());
        }
        for a in [0x2000, 0x2080, 0x20_0000, 0x20_1000] {
            pl.push(bus.load32(PLIC + a).unwrap() & 0xffff_ffff);
        }
        let mut ua = vec![0];
        for i in 1..256 {
            ua.push(bus.load8(UART + i).unwrap() & 0xff);
        }
        let mask = if self.xlen == 32 { 0xffff_ffff } else { u64::MAX };
        Obs {
            pc: emu.cpu.pc() & mask,
            prv: emu.cpu.verif_priv_lv(),
            x,
            csr,
            mem,
            cl,
            pl,
            ua,
        }
    }

    fn console(&mut self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        let mut got = Vec::new();
        unsafe {
            let end = libc::lseek(self.out_fd, 0, libc::SEEK_END);
            if end > self.out_pos {
                let n = (end - self.out_pos) as usize;
                got.resize(n, 0);
                libc::pread(self.out_fd, got.as_mut_ptr() as *mut _, n, self.out_pos);
                self.out_pos = end;
            }
        }
        got
    }

    fn ev(&mut self, s: &str) {
        if self.nev > 0 {
            self.events.push(',');
        }
        self.nev += 1;
        self.events.push_str(s);
    }

    /// one event with the differences between two observations
    fn log(&mut self, emu: &mut Emulator, kind: &str, n: u64) {
        let new = self.observe(emu);
        let old = self.obs.take().unwrap();
        let out = self.console();
        let mut o = String::new();
        let _ = write!(o, "{{\"k\":\"{kind}\",\"n\":{n},\"pc\":");
        jw(&mut o, new.pc);
        let _ = write!(o, ",\"prv\":{},\"x\":", new.prv);
        let dx: Vec<usize> = (0..32).filter(|&i| new.x[i] != old.x[i]).collect();
        jlist(&mut o, &dx, |o, &i| {
            let _ = write!(o, "[{i},");
            jw(o, new.x[i]);
            o.push(']')
        });
        o.push_str(",\"csr\":");
        let dc: Vec<usize> = (0..4096).filter(|&i| new.csr[i] != old.csr[i]).collect();
        jlist(&mut o, &dc, |o, &i| {
            let _ = write!(o, "[{i},");
            jw(o, new.csr[i]);
            o.push(']')
        });
        o.push_str(",\"mem\":");
        let mut dm = Vec::new();
        let mut j = 0;
        for &(off, len) in &self.sc.windows {
            for i in 0..len / 2 {
                if new.mem[j] != old.mem[j] {
                    dm.push((off / 2 + i, new.mem[j]));
                }
                j += 1;
            }
        }
        jlist(&mut o, &dm, |o, d| {
            let _ = write!(o, "[{},{}]", d.0, d.1);
        });
        for (name, a, b) in [("cl", &new.cl, &old.cl), ("pl", &new.pl, &old.pl), ("ua", &new.ua, &old.ua)] {
            let _ = write!(o, ",\"{name}\":");
            let d: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
            jlist(&mut o, &d, |o, &i| {
                let _ = write!(o, "[{i},");
                if name == "ua" {
                    let _ = write!(o, "{}", a[i]);
                } else {
                    jw(o, a[i]);
                }
                o.push(']')
            });
        }
        o.push_str(",\"out\":");
        jlist(&mut o, &out, |o, b| {
            let _ = write!(o, "{b}");
        });
        if let Some(st) = self.host.as_mut().and_then(|h| h.news()) {
            let _ = write!(o, ",\"st\":{st}");
        }
        o.push('}');
        self.obs = Some(new);
        self.ev(&o);
    }

    /// the whole observation
    fn full(&mut self, emu: &mut Emulator) {
        let old = self.obs.as_ref().unwrap();
        self.obs = Some(Obs {
            pc: 0,
            prv: 0,
            x: [0; 32],
            csr: vec![0; 4096],
            mem: vec![0; old.mem.len()],
            cl: vec![0; 8192],
            pl: vec![0; 36],
            ua: vec![0; 256],
        });
        self.log(emu, "O", 0);
    }

    /// all nonzero halfwords of touched pages outside the windows
    fn touched(&self, emu: &mut Emulator) -> Option<Vec<(u64, u64)>> {
        const SIZE: u64 = 0x8000_0000;
        let maps = std::fs::read_to_string("/proc/self/maps").ok()?;
        let mut found = None;
        for l in maps.lines() {
            let r = l.split_whitespace().next()?;
            let (a, b) = r.split_once('-')?;
            let (a, b) = (hex(a), hex(b));
            if b - a >= SIZE {
                found = Some((a, b));
            }
        }
        let (a, b) = found?;
        let mut f = std::fs::File::open("/proc/self/pagemap").ok()?;
        use std::io::Seek;
        f.seek(std::io::SeekFrom::Start(a / 4096 * 8)).ok()?;
        let mut raw = vec![0u8; ((b - a) / 4096 * 8) as usize];
        f.read_exact(&mut raw).ok()?;
        let mut pages = std::collections::BTreeSet::new();
        for (i, e) in raw.chunks(8).enumerate() {
            let e = u64::from_le_bytes(e.try_into().unwrap());
            if e >> 63 != 0 || e >> 62 & 1 != 0 {
                // the vector need not start at the start of the mapping
                for p in (i as u64).saturating_sub(1)..=i as u64 + 1 {
                    if p < SIZE / 4096 {
                        pages.insert(p);
                    }
                }
            }
        }
        let mut out = Vec::new();
        for p in pages {
            for w in 0..512 {
                let off = p * 4096 + w * 8;
                let v = emu.cpu.bus.load64(self.base + off).unwrap();
                if v == 0 {
                    continue;
                }
                for h in 0..4 {
                    let o = off + 2 * h;
                    let x = v >> (16 * h) & 0xffff;
                    if x != 0 && !self.sc.windows.iter().any(|&(a, l)| o >= a && o < a + l) {
                        out.push((o / 2, x));
                    }
                }
            }
        }
        Some(out)
    }

    /// the trace but for its closing brackets, and a mark: N(ormal end) or E(xit by the guest)
    fn write_out(&mut self, end: &str, mark: char) {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"id\":\"{}\",\"rv\":{},\"cf\":{},\"win\":",
            self.sc.name, self.xlen, self.cf
        );
        jlist(&mut o, &self.sc.windows, |o, w| {
            let _ = write!(o, "[{},{}]", w.0 / 2, w.1 / 2);
        });
        if let Some(h) = &self.host {
            let _ = write!(o, ",\"uid\":{},\"pipe\":{},\"stdin\":", h.uid, self.sc.pipe as u32);
            jlist(&mut o, &self.sc.stdin, |o, b| {
                let _ = write!(o, "{b}");
            });
            o.push_str(",\"fs\":");
            jlist(&mut o, &self.sc.files, |o, (path, kind, mode, data)| {
                o.push('[');
                jlist(o, path.as_bytes(), |o, b| {
                    let _ = write!(o, "{b}");
                });
                let _ = write!(o, ",\"{kind}\",{mode},");
                jlist(o, data, |o, b| {
                    let _ = write!(o, "{b}");
                });
                o.push(']');
            });
        }
        let _ = write!(o, ",\"ev\":[{}{}{}", self.events, end, mark);
        unsafe {
            let mut p = 0;
            while p < o.len() {
                let n = libc::write(
                    self.result_fd,
                    o[p..].as_ptr() as *const _,
                    o.len() - p,
                );
                if n <= 0 {
                    break;
                }
                p += n as usize;
            }
        }
    }

    fn finish(&mut self, end: &str) -> ! {
        self.write_out(end, 'N');
        unsafe { libc::_exit(0) }
    }

    fn poke(&mut self, emu: &mut Emulator, w: &[String], o: &mut Poke) {
        match w[0].as_str() {
            "pc" => {
                let v = hex(&w[1]);
                emu.cpu.verif_set_pc(v);
                o.pc = Some(v);
            }
            "priv" => {
                let v = hex(&w[1]);
                emu.cpu.verif_set_priv_lv(v);
                o.prv = Some(v);
            }
            "x" => {
                let (i, v) = (hex(&w[1]), hex(&w[2]));
                emu.cpu.regs.write(Some(i as usize), v);
                o.x.push((i, v));
            }
            "c" => {
                let (i, v) = (hex(&w[1]), hex(&w[2]));
                emu.cpu.verif_csr_write(i as usize, v);
                o.csr.push((i, v));
            }
            "cl" => {
                let (i, v) = (hex(&w[1]), hex(&w[2]));
                emu.cpu.bus.store64(CLINT + i, v).unwrap();
                o.cl.push((i, v));
            }
            "m" => {
                let off = hex(&w[1]);
                let b = bytes(&w[2]);
                for (i, d) in b.chunks(2).enumerate() {
                    emu.cpu
                        .bus
                        .store16(
                            self.base + off + 2 * i as u64,
                            u16::from_le_bytes([d[0], d[1]]) as u64,
                        )
                        .unwrap();
                }
                o.mem.push((off, b));
            }
            "lv" => {
                let (i, v) = (hex(&w[1]), hex(&w[2]));
                emu.cpu.bus.plic.set_interrupt_level(i as u32, v as u32);
                o.lv.push((i, v));
            }
            "in" => {
                let b = bytes(&w[1]);
                carron::verif::send_console_input(b.clone());
                o.input.push(b);
            }
            c => panic!("unknown command {c}"),
        }
    }

    fn hook(&mut self, emu: &mut Emulator) {
        if self.spin > 0 {
            self.spin -= 1;
            if self.spin > 0 {
                return;
            }
            let n = self.spun;
            self.log(emu, "J", n);
        } else if self.logging {
            self.logging = false;
            self.log(emu, "S", 1);
        }
        if self.run > 0 {
            self.run -= 1;
            self.logging = true;
            return;
        }
        let mut poke = Poke::default();
        loop {
            if self.next == self.sc.cmds.len() {
                self.flush_poke(emu, &mut poke);
                self.full(emu);
                let end = match self.touched(emu) {
                    Some(t) => {
                        let mut o = String::from(",{\"k\":\"F\",\"mem\":");
                        jlist(&mut o, &t, |o, d| {
                            let _ = write!(o, "[{},{}]", d.0, d.1);
                        });
                        o.push('}');
                        o
                    }
                    None => String::new(),
                };
                self.finish(&end);
            }
            let w = self.sc.cmds[self.next].clone();
            self.next += 1;
            match w[0].as_str() {
                "R" => {
                    let n = hex(&w[1]);
                    if n > 0 {
                        self.flush_poke(emu, &mut poke);
                        self.run = n - 1;
                        self.logging = true;
                        return;
                    }
                }
                "J" => {
                    let n = hex(&w[1]);
                    if n > 0 {
                        self.flush_poke(emu, &mut poke);
                        self.spin = n;
                        self.spun = n;
                        return;
                    }
                }
                _ => self.poke(emu, &w, &mut poke),
            }
        }
    }

    fn flush_poke(&mut self, emu: &mut Emulator, p: &mut Poke) {
        self.obs = Some(self.observe(emu));
        self.console();
        if self.nev > 0 && p.empty() {
            return;
        }
        let mut o = String::from("{\"k\":\"P\",\"pc\":");
        match p.pc {
            Some(v) => jw(&mut o, v),
            None => o.push_str("[]"),
        }
        let _ = write!(o, ",\"prv\":{}", p.prv.map(|v| v as i64).unwrap_or(-1));
        for (name, l) in [("x", &p.x), ("csr", &p.csr), ("cl", &p.cl)] {
            let _ = write!(o, ",\"{name}\":");
            jlist(&mut o, l, |o, (i, v)| {
                let _ = write!(o, "[{i},");
                jw(o, *v);
                o.push(']');
            });
        }
        o.push_str(",\"mem\":");
        jlist(&mut o, &p.mem, |o, (off, b)| {
            let _ = write!(o, "[{},", off / 2);
            let h: Vec<u16> = b
                .chunks(2)
                .map(|d| u16::from_le_bytes([d[0], d[1]]))
                .collect();
            jlist(o, &h, |o, v| {
                let _ = write!(o, "{v}");
            });
            o.push(']');
        });
        o.push_str(",\"lv\":");
        jlist(&mut o, &p.lv, |o, (i, v)| {
            let _ = write!(o, "[{i},{v}]");
        });
        o.push_str(",\"in\":");
        jlist(&mut o, &p.input, |o, b| {
            jlist(o, b, |o, v| {
                let _ = write!(o, "{v}");
            });
        });
        o.push('}');
        *p = Poke::default();
        self.ev(&o);
        if self.nev == 1 {
            self.full(emu);
        }
    }
}

#[derive(Default)]
struct Poke {
    pc: Option<u64>,
    prv: Option<u64>,
    x: Vec<(u64, u64)>,
    csr: Vec<(u64, u64)>,
    cl: Vec<(u64, u64)>,
    lv: Vec<(u64, u64)>,
    mem: Vec<(u64, Vec<u8>)>,
    input: Vec<Vec<u8>>,
}

impl Poke {
    fn empty(&self) -> bool {
        self.pc.is_none()
            && self.prv.is_none()
            && self.x.is_empty()
            && self.csr.is_empty()
            && self.cl.is_empty()
            && self.lv.is_empty()
            && self.mem.is_empty()
            && self.input.is_empty()
    }
}

fn memfd() -> i32 {
    let fd = unsafe { libc::memfd_create(b"out\0".as_ptr() as *const _, 0) };
    assert!(fd >= 0);
    fd
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let (elf, xlen, scen, outp) = (&argv[1], argv[2].parse::<u64>().unwrap(), &argv[3], &argv[4]);
    let mut args = Arguments {
        filename: elf.clone(),
        exe_option: ExeOption::OPT_DEFAULT,
        pk_path: None,
        kernel_path: None,
        initrd_path: None,
        init_pc: None,
        main_args: vec![],
    };
    let (mut cf, mut hosted) = (1, false);
    // the log level; quiet: what is printed goes nowhere
    let (mut level, mut quiet) = (carron::log::LogLv::NoLog, false);
    for a in &argv[5..] {
        let (k, v) = a.split_once('=').unwrap();
        match k {
            "cf" => cf = v.parse().unwrap(),
            "host" => hosted = v == "1",
            "quiet" => quiet = v == "1",
            "log" => {
                level = match v {
                    "nolog" => carron::log::LogLv::NoLog,
                    "diff" => carron::log::LogLv::Diff,
                    "info" => carron::log::LogLv::Info,
                    "debug" => carron::log::LogLv::Debug,
                    _ => carron::log::LogLv::Trace,
                }
            }
            "kernel" => args.kernel_path = Some(v.to_string()),
            "initrd" => args.initrd_path = Some(v.to_string()),
            "pc" => args.init_pc = Some(hex(v)),
            "arg" => args.main_args.push(String::from_utf8(bytes(v)).unwrap()),
            _ => panic!("unknown option {a}"),
        }
    }
    let scenarios = parse(scen);
    carron::log::LOG_LEVEL.get_or_init(|| level);
    let loader = carron::elfload::ElfLoader::try_new(elf).unwrap();
    let mut emu = Emulator::new(loader, args);
    let outp = outp.clone();
    let child = std::rc::Rc::new(std::cell::RefCell::new(None::<Child>));
    let slot = child.clone();
    carron::verif::set_step_hook(Box::new(move |emu| {
        if slot.borrow().is_none() {
            let mut rom = String::from("{\"rom\":");
            let halves: Vec<u64> = (0..0x8000)
                .map(|i| emu.cpu.bus.load_u16(0x1000 + 2 * i))
                .take_while(|r| r.is_ok())
                .map(|r| r.unwrap())
                .collect();
            jlist(&mut rom, &halves, |o, v| {
                let _ = write!(o, "{v}");
            });
            rom.push_str("}\n");
            std::fs::write(format!("{outp}.rom"), rom).unwrap();
            let mut out = std::io::BufWriter::new(std::fs::File::create(&outp).unwrap());
            for sc in &scenarios {
                let res = memfd();
                let dir = format!("{outp}.fs");
                let std_fds = if hosted {
                    std::fs::create_dir(&dir).unwrap();
                    [memfd(), memfd(), memfd()]
                } else {
                    [-1; 3]
                };
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    let host = if hosted { Some(enter_host(sc, &dir, std_fds)) } else { None };
                    let out_fd = if hosted { std_fds[1] } else { memfd() };
                    unsafe {
                        if quiet {
                            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                            assert!(n >= 0 && libc::dup2(n, 1) == 1);
                            libc::close(n);
                        } else if !hosted {
                            libc::dup2(out_fd, 1);
                        }
                        let spins: u64 = sc.cmds.iter().filter(|w| w[0] == "J").map(|w| hex(&w[1])).sum();
                        libc::alarm(20 + (spins / 500_000) as u32);
                        libc::atexit(at_exit);
                        THE_CHILD = std::rc::Rc::as_ptr(&slot);
                    }
                    *slot.borrow_mut() = Some(Child {
                        xlen,
                        cf,
                        base: emu.cpu.bus.dram.base_addr,
                        host,
                        sc: sc.clone(),
                        next: 0,
                        run: 0,
                        spin: 0,
                        spun: 0,
                        logging: false,
                        obs: None,
                        events: String::new(),
                        nev: 0,
                        out_fd,
                        out_pos: 0,
                        result_fd: res,
                    });
                    break;
                }
                let mut status = 0;
                unsafe { libc::waitpid(pid, &mut status, 0) };
                let mut line = String::new();
                let mut f = unsafe { std::fs::File::from_raw_fd(res) };
                use std::io::Seek;
                f.seek(std::io::SeekFrom::Start(0)).unwrap();
                f.read_to_string(&mut line).unwrap();
                let mark = line.pop();
                let files = if hosted {
                    let l = contents(&dir, std_fds, sc.pipe);
                    std::fs::remove_dir_all(&dir).unwrap();
                    for fd in std_fds {
                        unsafe { libc::close(fd) };
                    }
                    format!(",{l}")
                } else {
                    String::new()
                };
                match mark {
                    Some('N') => line += &format!("{files}]}}\n"),
                    Some('E') if libc::WIFEXITED(status) => {
                        let sep = if line.ends_with('[') { "" } else { "," };
                        line += &format!(
                            "{sep}{{\"k\":\"E\",\"status\":{}}}{files}]}}\n",
                            libc::WEXITSTATUS(status)
                        )
                    }
                    _ => {
                        line = format!(
                            "{{\"id\":\"{}\",\"rv\":{},\"cf\":{},\"win\":[],\"ev\":[{{\"k\":\"X\",\"msg\":\"process ended, wait status {}\"}}]}}\n",
                            sc.name, xlen, cf, status
                        )
                    }
                }
                out.write_all(line.as_bytes()).unwrap();
            }
            if slot.borrow().is_none() {
                drop(out);
                unsafe { libc::_exit(0) }
            }
            std::mem::forget(out);
        }
        slot.borrow_mut().as_mut().unwrap().hook(emu);
    }));

    let info = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let info2 = info.clone();
    std::panic::set_hook(Box::new(move |p| {
        *info2.lock().unwrap() = p.to_string();
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| emu.emulation()));
    if r.is_err() || r.is_ok() {
        let msg: String = info
            .lock()
            .unwrap()
            .chars()
            .filter(|c| !c.is_control() && *c != '"' && *c != '\\')
            .collect();
        if let Ok(mut c) = child.try_borrow_mut() {
            if let Some(c) = c.as_mut() {
                let sep = if c.nev > 0 { "," } else { "" };
                let end = format!("{sep}{{\"k\":\"X\",\"msg\":\"{msg}\"}}");
                c.finish(&end);
            }
        }
        eprintln!("driver: {msg}");
        std::process::exit(2);
    }
}
