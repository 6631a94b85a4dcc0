//! C28, C29: the real program as its own process, with a simulated modem on loopback, a pseudo
//! terminal for a rig, and pipes for its user.

use crate::common::{hash64, hex, short_hex, Rng};
use crate::ctl::garbage;
use crate::rigs::rig_output;
use crate::world::*;
use crate::Plan;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, TcpListener};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, Command, ExitStatus, Stdio};

pub const PLAN28: Plan = Plan {
    stream: "C28",
    quick: 1600,
    thorough: 60_000,
    batch: 16,
    parallel: 8,
    rule: "a case is one run of the program against a scripted modem with chosen lines, segmentation, log level, and possibly a refusal or loss at one step; non-trivial: distinct script and received bytes",
    floors: &[
        ("sessions that ended as they should", 300),
        ("lines printed", 5000),
        ("refused at a step", 60),
        ("modem lost at a step", 60),
        ("connects that failed", 60),
        ("lost before the prompt", 60),
        ("invalid ids", 60),
        ("cuts seen by the program", 1000),
        ("lines that are not UTF-8", 500),
        ("received along with the prompt", 40),
        ("both lines of input typed ahead", 60),
        ("runs by a fast clock", 500),
        ("minutes in which nothing happened", 300),
    ],
};
pub const PLAN29: Plan = Plan {
    stream: "C29",
    quick: 1200,
    thorough: 45_000,
    batch: 16,
    parallel: 8,
    rule: "a case is one run of the program with bursts of transmit and receive requests, alone or mixed with other traffic, while the rig sends bytes of its own; non-trivial: distinct bursts and rig output",
    floors: &[("requests", 10_000), ("requests relayed", 5000), ("single requests checked exactly", 2000), ("bursts", 1500), ("bytes from the rig", 100_000), ("requests before the rig was opened", 200), ("bursts while the rig took nothing", 400), ("runs by a fast clock", 400)],
};

// ---------------------------------------------------------------- the rig's end of the line

pub struct Pty {
    master: std::fs::File,
    slave: std::fs::File,
    pub path: String,
    pub got: Vec<u8>,
    out: Vec<u8>,
    /// Not reading what comes; how much was put in the way, and where.
    held: Option<(usize, usize)>,
}

impl Pty {
    pub fn new() -> std::io::Result<Pty> {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC | libc::O_NONBLOCK);
            if m < 0 {
                return Err(std::io::Error::last_os_error());
            }
            let master = std::fs::File::from_raw_fd(m);
            if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            let mut buf = [0 as libc::c_char; 128];
            if libc::ptsname_r(m, buf.as_mut_ptr(), buf.len()) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            let name = std::ffi::CStr::from_ptr(buf.as_ptr()).to_owned();
            let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if s < 0 {
                return Err(std::io::Error::last_os_error());
            }
            let slave = std::fs::File::from_raw_fd(s);
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(s, &mut t);
            libc::cfmakeraw(&mut t);
            libc::tcsetattr(s, libc::TCSANOW, &t);
            Ok(Pty { master, slave, path: name.to_string_lossy().into_owned(), got: vec![], out: vec![], held: None })
        }
    }
    pub fn slave_fd(&self) -> i32 {
        self.slave.as_raw_fd()
    }
    pub fn pump(&mut self) -> bool {
        let mut moved = false;
        let mut buf = [0u8; 4096];
        while self.held.is_none() {
            let Ok(n) = self.master.read(&mut buf) else { break };
            if n == 0 {
                break;
            }
            self.got.extend_from_slice(&buf[..n]);
            moved = true;
        }
        while !self.out.is_empty() {
            // The line discipline takes 4095 bytes and drops what is beyond: only as much as fits.
            match self.master.write(&self.out[..self.out.len().min(512)]) {
                Ok(n) if n > 0 => {
                    self.out.drain(..n);
                    moved = true;
                }
                _ => break,
            }
        }
        moved
    }
    pub fn send(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
    /// Fills the line, so that nothing more goes through to the rig for now.
    fn hold(&mut self) {
        nonblock(self.slave.as_raw_fd());
        let mut n = 0;
        for size in [512, 1] {
            while let Ok(k) = self.slave.write(&vec![b'#'; size]) {
                n += k;
            }
        }
        self.held = Some((self.got.len(), n));
    }
    fn release(&mut self) {
        if let Some((at, n)) = self.held.take() {
            while self.got.len() < at + n {
                self.pump();
            }
            self.got.drain(at..at + n);
        }
    }
}

// ---------------------------------------------------------------- the program

pub struct Prog {
    child: Child,
    stdin: Option<ChildStdin>,
    so: std::process::ChildStdout,
    se: std::process::ChildStderr,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub status: Option<ExitStatus>,
    fast: bool,
    mon: Mon,
}

fn nonblock(fd: i32) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}

fn drain(r: &mut impl Read, to: &mut Vec<u8>) -> bool {
    let mut buf = [0u8; 65536];
    let mut moved = false;
    loop {
        match r.read(&mut buf) {
            Ok(0) => return moved,
            Ok(n) => {
                to.extend_from_slice(&buf[..n]);
                moved = true;
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return moved,
        }
    }
}

impl Prog {
    fn start(args: &[String]) -> R<Prog> {
        Prog::start_with(args, &[])
    }
    pub fn pid(&self) -> u32 {
        self.mon.pid
    }
    pub fn start_with(args: &[String], env: &[(String, String)]) -> R<Prog> {
        Prog::start_in("/".as_ref(), args, env)
    }
    pub fn start_in(dir: &std::path::Path, args: &[String], env: &[(String, String)]) -> R<Prog> {
        let mut env = env.to_vec();
        let mut fast = false;
        match std::env::var("VERIF_CLOCK") {
            // Half of the runs by a clock that runs fast.
            Ok(so) if !so.is_empty() && !env.iter().any(|e| e.0 == "LD_PRELOAD") && hash64(args.join(" ").as_bytes()) % 2 == 0 => {
                env.push(("LD_PRELOAD".into(), so));
                fast = true;
                count("runs by a fast clock", 1);
            }
            _ => {}
        }
        let exe = std::env::var("VERIF_BIN").unwrap_or_else(|_| "/verif/target/bin/debug/plusendi".into());
        let mut c = Command::new(&exe);
        c.args(args)
            .env_clear()
            .envs(env.iter().cloned())
            .current_dir(dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        let mut child = io("start the program", c.spawn())?;
        let so = child.stdout.take().unwrap();
        let se = child.stderr.take().unwrap();
        nonblock(so.as_raw_fd());
        nonblock(se.as_raw_fd());
        let stdin = child.stdin.take();
        let pid = child.id();
        Ok(Prog { child, stdin, so, se, out: vec![], err: vec![], status: None, fast, mon: Mon { pid, except: 0 } })
    }
    pub fn pump(&mut self) -> bool {
        let ended = if self.status.is_none() { self.child.try_wait().ok().flatten() } else { None };
        let mut moved = drain(&mut self.so, &mut self.out);
        moved |= drain(&mut self.se, &mut self.err);
        if ended.is_some() {
            self.status = ended;
            moved = true;
        }
        moved
    }
    fn enter(&mut self, b: &[u8]) -> R {
        if let Some(s) = &mut self.stdin {
            if s.write_all(b).is_err() {
                self.pump();
                if self.status.is_none() {
                    return inc("harness: the program's input is closed");
                }
            }
        }
        Ok(())
    }
}
impl Drop for Prog {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Program, modem and rig together.
struct S {
    prog: Prog,
    rig: Pty,
    lc: TcpListener,
    ld: TcpListener,
    m: Option<Modem>,
    pending: (Option<std::net::TcpStream>, Option<std::net::TcpStream>),
    logging: bool,
    pauses: Rng,
}

impl S {
    fn pump(&mut self) -> bool {
        let mut moved = self.prog.pump();
        moved |= self.rig.pump();
        match &mut self.m {
            Some(m) => moved |= m.pump(),
            None => {
                if self.pending.0.is_none() {
                    self.pending.0 = self.lc.accept().ok().map(|x| x.0);
                }
                if self.pending.1.is_none() {
                    self.pending.1 = self.ld.accept().ok().map(|x| x.0);
                }
                if self.pending.0.is_some() && self.pending.1.is_some() {
                    self.m = Some(Modem::new(self.pending.0.take().unwrap(), self.pending.1.take().unwrap()));
                    moved = true;
                }
            }
        }
        moved
    }
    fn m(&mut self) -> &mut Modem {
        self.m.as_mut().unwrap()
    }
    fn mon(&self) -> Mon {
        Mon { pid: self.prog.mon.pid, except: 0 }
    }
    fn wait(&mut self, what: &str, mut cond: impl FnMut(&mut S) -> R<bool>) -> R {
        let mon = self.mon();
        let r = mon.wait(what, || {
            let p = self.pump();
            if cond(self)? {
                return Ok(Step::Done);
            }
            self.crashed()?;
            Ok(if p { Step::Progress } else { Step::Idle })
        });
        r.map_err(|e| self.explain(e))
    }
    fn explain(&self, e: End) -> End {
        match e {
            End::Bad(mut b) => {
                let lines = self.m.as_ref().map(|m| m.lines.join(" | ")).unwrap_or_default();
                b.detail = format!(
                    "{} [modem received: {lines}; program: {:?}, printed {:?}, said {:?}]",
                    b.detail,
                    self.prog.status,
                    tail(&self.prog.out),
                    tail(&self.prog.err)
                );
                End::Bad(b)
            }
            e => e,
        }
    }
    fn settle(&mut self) -> R {
        count("times at rest", 1);
        self.pause(8);
        let mon = self.mon();
        let r = mon.settle(|| Ok(self.pump()));
        let r = r.and_then(|_| self.crashed());
        r.map_err(|e| self.explain(e))
    }
    /// More than a minute for the program, in one of `n` cases.
    fn pause(&mut self, n: u64) {
        if self.prog.fast && self.pauses.chance(1, n) {
            self.pump();
            std::thread::sleep(std::time::Duration::from_millis(160 + self.pauses.below(100)));
            self.pump();
            count("minutes in which nothing happened", 1);
        }
    }
    fn crashed(&self) -> R {
        if let Some(s) = self.prog.status {
            if s.signal().is_some() || s.code() == Some(101) || s.code() == Some(134) {
                return bad("the program crashed", format!("{s}"));
            }
        }
        Ok(())
    }
    /// The next command line, or the program's end.
    fn expect(&mut self, line: &str) -> R {
        let mut got = None;
        self.wait(&format!("{line:?} to reach the modem"), |s| {
            let gone = s.prog.status.is_some();
            if let Some(m) = &mut s.m {
                got = m.next();
            }
            Ok(got.is_some() || gone)
        })?;
        match got {
            Some(g) if g == line => Ok(()),
            Some(g) => Err(self.explain(End::Bad(crate::common::Bad { what: "wrong command".into(), detail: format!("{g:?} instead of {line:?}") }))),
            None => Err(self.explain(End::Bad(crate::common::Bad { what: "the program ended".into(), detail: format!("instead of sending {line:?}") }))),
        }
    }
    /// Nothing was sent that is not expected.
    fn nothing_more(&mut self, when: &str) -> R {
        self.pump();
        let seen = self.m().seen;
        if self.m().lines.len() > seen || !self.m().partial().is_empty() {
            let l = format!("{:?} {when}", &self.m().lines[seen..]);
            return Err(self.explain(End::Bad(crate::common::Bad { what: "unexpected command".into(), detail: l })));
        }
        Ok(())
    }
    fn fails(&mut self, when: &str) -> R {
        self.wait(&format!("the program to end {when}"), |s| Ok(s.prog.status.is_some()))?;
        // Whatever it still sent has arrived.
        self.pump();
        self.crashed().map_err(|e| self.explain(e))?;
        if self.prog.status.unwrap().success() {
            return Err(self.explain(End::Bad(crate::common::Bad { what: "success reported".into(), detail: format!("{when}") })));
        }
        Ok(())
    }
    /// What the user sees, without the log.
    fn printed(&self) -> Vec<u8> {
        if !self.logging {
            return self.prog.out.clone();
        }
        let mut v = vec![];
        for l in self.prog.out.split_inclusive(|&b| b == b'\n') {
            if l.starts_with(b"@") {
                v.extend_from_slice(l);
            }
        }
        v
    }
}

pub fn tail(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[b.len().saturating_sub(1500)..]).into_owned()
}

struct Ids {
    de: String,
    target: String,
}

fn ids(rng: &mut Rng) -> (Ids, Vec<String>) {
    let de = callsign(rng);
    let target = callsign(rng);
    let lower = |rng: &mut Rng, s: &str| if rng.chance(1, 3) { s.to_lowercase() } else { s.to_string() };
    let (a, b) = (lower(rng, &de), lower(rng, &target));
    let mut args = if rng.chance(1, 2) { vec!["-d".into(), a, b] } else { vec![b, format!("--de={a}")] };
    args.push("--rig-baud".into());
    args.push((*rng.pick(&["4800", "9600", "19200", "38400"])).into());
    (Ids { de, target }, args)
}

fn start(rng: &mut Rng, mut args: Vec<String>) -> R<S> {
    let ip = if rng.chance(1, 2) { Ipv4Addr::LOCALHOST } else { Ipv4Addr::new(127, rng.byte(), rng.byte(), rng.range(1, 254) as u8) };
    let derived = rng.chance(1, 3);
    let mut tries = 0;
    let (lc, ld) = loop {
        let lc = io("listen", listener(IpAddr::V4(ip), 0))?;
        if !derived {
            break (lc, io("listen", listener(IpAddr::V4(ip), 0))?);
        }
        if port(&lc) < u16::MAX {
            if let Ok(ld) = listener(IpAddr::V4(ip), port(&lc) + 1) {
                break (lc, ld);
            }
        }
        tries += 1;
        if tries > 100 {
            return inc("harness: no two adjacent ports");
        }
    };
    args.push(format!("--modem-control-port={}", port(&lc)));
    if !derived {
        args.push(format!("--modem-data-port={}", port(&ld)));
    }
    if ip != Ipv4Addr::LOCALHOST || rng.chance(1, 2) {
        args.push(format!("--modem-address={ip}"));
    }
    let level = *rng.pick(&["off", "off", "off", "off", "error", "info", "debug", "trace", "trace", "plusendi=trace"]);
    args.push(format!("--log={level}"));
    let rig = io("open a pseudo terminal", Pty::new())?;
    args.push(format!("--rig-control={}", rig.path));
    rng.shuffle(&mut args[3..]);
    // Options with a separate value must stay together.
    if let Some(i) = args.iter().position(|a| a == "--rig-baud") {
        args.remove(i);
        let j = args.iter().position(|a| ["4800", "9600", "19200", "38400"].contains(&a.as_str())).unwrap();
        args[j] = format!("--rig-baud={}", args[j]);
    }
    count(&format!("log level {level}"), 1);
    let prog = Prog::start(&args)?;
    Ok(S { prog, rig, lc, ld, m: None, pending: (None, None), logging: level != "off", pauses: Rng::new(rng.next()) })
}

fn noise(rng: &mut Rng) -> String {
    loop {
        let n = crate::ctl::noise(rng);
        if !n.contains("PENDING") {
            return n;
        }
    }
}

/// A line the remote station might send, without its end.
fn text(rng: &mut Rng, logging: bool) -> Vec<u8> {
    let mut v = match rng.below(12) {
        0 => vec![],
        1 => b"[WL2K-5.0-B2FWIHJM$]".to_vec(),
        2 => b">;PQ: 1234".to_vec(),
        3 => b"CMS> ".to_vec(),
        4 => {
            let n = rng.range(1, 60);
            rng.bytes(n)
        }
        5 => "\u{20ac}\u{1f4fb}\u{e9}\u{0}\u{7f}".as_bytes()[..rng.range(1, 11)].to_vec(),
        6 => vec![0xff; rng.range(1, 5)],
        7 => {
            let n = rng.range(1, 40);
            (0..n).map(|_| *rng.pick(b"> ;\t\x00\x80\xc3\xa9OK\x1b")).collect()
        }
        8 if rng.chance(1, 8) => {
            let n = rng.range(1000, 60_000);
            (0..n).map(|_| *rng.pick(b"abcdefgh ")).collect()
        }
        _ => {
            let n = rng.range(1, 70);
            (0..n).map(|_| rng.range(32, 126) as u8).collect()
        }
    };
    v.retain(|&b| b != b'\r' && !(logging && (b == b'\n' || b == 0x1b)));
    if v.last() == Some(&b'>') {
        v.push(b'.');
    }
    // Told apart from the log by its beginning.
    if logging {
        v.insert(0, b'@');
    }
    v
}

fn prompt(rng: &mut Rng, logging: bool) -> Vec<u8> {
    let mut v = match rng.below(4) {
        0 if !logging => vec![],
        1 => b"@CMS via KC1GSL ".to_vec(),
        _ => text(rng, logging),
    };
    v.push(b'>');
    v
}

/// How a line appears, if what is not UTF-8 is replaced.
fn shown(lines: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![];
    for l in lines {
        v.extend_from_slice(String::from_utf8_lossy(l).as_bytes());
        v.push(b'\n');
    }
    v
}

fn check_printed(s: &S, lines: &[Vec<u8>], when: &str) -> R {
    // What is no text may be printed as it is or replaced.
    let have = String::from_utf8_lossy(&s.printed()).into_owned().into_bytes();
    if have != shown(lines) {
        let want = shown(lines);
        let at = have.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
        return Err(s.explain(End::Bad(crate::common::Bad {
            what: "wrong output".into(),
            detail: format!(
                "{when}: {} bytes printed, {} expected, different from byte {at}: {} instead of {}",
                have.len(),
                want.len(),
                short_hex(&have[at.saturating_sub(8)..(at + 40).min(have.len())]),
                short_hex(&want[at.saturating_sub(8)..(at + 40).min(want.len())])
            ),
        })));
    }
    Ok(())
}

/// Sends bytes on the data connection in pieces, `lines` being those complete after each byte.
fn send_data(s: &mut S, rng: &mut Rng, bytes: &[u8], before: &[Vec<u8>], limit: usize) -> R {
    let pauses = match rng.below(4) {
        0 => 0,
        1 => 8,
        _ => 3,
    };
    let mut left = pauses;
    let mut i = 0;
    while i < bytes.len() {
        let n = match rng.below(5) {
            0 => 1,
            1 => bytes.len() - i,
            2 => {
                // Right after or around a line end.
                let e = bytes[i..].iter().position(|&b| b == b'\r').unwrap_or(0);
                (e + rng.range(0, 2)).max(1)
            }
            _ => rng.range(1, 80),
        }
        .min(bytes.len() - i);
        s.m().data.send(&bytes[i..i + n]);
        i += n;
        if rng.chance(1, 8) {
            let n = noise(rng);
            s.m().send(&n);
        }
        if left > 0 && i < bytes.len() && rng.chance(1, 2) {
            left -= 1;
            s.settle()?;
            count("cuts seen by the program", 1);
            let mut lines = before.to_vec();
            lines.extend(split(&bytes[..i]));
            lines.truncate(limit);
            check_printed(s, &lines, "after a part")?;
        }
    }
    Ok(())
}

fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|&x| x == b'\r').map(|x| x.to_vec()).collect();
    v.pop();
    v
}

fn lose(s: &mut S, rng: &mut Rng, what: &mut Vec<u8>) {
    match rng.below(4) {
        0 => s.m().ctl.close(),
        1 => s.m().ctl.reset(),
        2 => s.m().ctl.shutdown_write(),
        _ => {
            let g = garbage(rng);
            what.extend(&g);
            let mut g = g;
            g.push(b'\r');
            s.m().ctl.send(&g);
        }
    }
}

/// Up to and including the CONNECT command; then the reply to it is due.
fn until_connect(s: &mut S, id: &Ids, rng: &mut Rng, chatter: bool) -> R {
    let steps = [format!("MYCALL {}", id.de), "COMPRESSION TEXT".into(), "BW2300".into()];
    for l in &steps {
        s.expect(l)?;
        if chatter && rng.chance(1, 3) {
            let n = noise(rng);
            s.m().send(&n);
        }
        s.pause(12);
        if rng.chance(1, 6) {
            s.settle()?;
            s.nothing_more("before the reply to the one before")?;
        }
        s.m().send("OK");
    }
    s.expect(&format!("CONNECT {} {}", id.de, id.target))
}

const BAD_IDS: &[&str] = &[
    "", "A", "K1", "1", "12AB3C", "KC1GSL-1", "KC1GSL ", " KC1GSL", "KC1GSL\rDISCONNECT", "KC1GSL\n", "KC1 GSL", "KC1GSL/P", "\u{c4}C1GSL", "K\u{661}GSL",
    "KC1GSL;W1AW", "KC1GSL,", "?", "KCGSL", "33KC1GSL", "K1-", "\u{ff2b}C1GSL",
];

pub fn c28(mut rng: Rng) -> R {
    let (id, args) = ids(&mut rng);
    let kind = rng.below(16);
    let mut what = vec![kind as u8];
    match kind {
        0 => {
            // Something that is no id.
            let b = (*rng.pick(BAD_IDS)).to_string();
            what.extend(b.as_bytes());
            let mut args = args;
            let de = rng.chance(1, 2);
            if args[0] == "-d" {
                args[if de { 1 } else { 2 }] = b;
            } else if de {
                args[1] = format!("--de={b}");
            } else {
                args[0] = b;
            }
            let mut s = start(&mut rng, args)?;
            s.fails("with an invalid id")?;
            if s.m.is_some() || s.pending.0.is_some() {
                return bad("connected with an invalid id", String::from_utf8_lossy(&what[1..]).into_owned());
            }
            count("invalid ids", 1);
        }
        1 => {
            // The modem is not there.
            let mut s = start(&mut rng, args)?;
            // Too late for this run of the program: start another on ports nobody listens on.
            let (pc, pd) = (port(&s.lc), port(&s.ld));
            let which = rng.below(2);
            what.push(which as u8);
            drop(s.prog);
            let gone = |l: TcpListener| drop(l);
            let args2 = vec![
                id.target.clone(),
                format!("--de={}", id.de),
                "--rig-baud=9600".into(),
                format!("--rig-control={}", s.rig.path),
                format!("--modem-address={}", s.lc.local_addr().unwrap().ip()),
                format!("--modem-control-port={pc}"),
                format!("--modem-data-port={pd}"),
            ];
            if which == 0 {
                gone(std::mem::replace(&mut s.lc, io("listen", listener(IpAddr::V4(Ipv4Addr::LOCALHOST), 0))?));
            } else {
                gone(std::mem::replace(&mut s.ld, io("listen", listener(IpAddr::V4(Ipv4Addr::LOCALHOST), 0))?));
            }
            s.prog = Prog::start(&args2)?;
            s.fails("without a modem")?;
            count("modem not there", 1);
        }
        2 | 3 => {
            // A command is refused, or the modem lost, at one of the first steps.
            let mut s = start(&mut rng, args)?;
            let steps = [format!("MYCALL {}", id.de), "COMPRESSION TEXT".into(), "BW2300".into()];
            let at = rng.range(0, 2);
            what.push(at as u8);
            for l in &steps[..at] {
                s.expect(l)?;
                s.m().send("OK");
            }
            s.expect(&steps[at])?;
            if rng.chance(1, 2) {
                let n = noise(&mut rng);
                s.m().send(&n);
            }
            if kind == 2 {
                s.m().send("WRONG");
                s.fails("after a refusal")?;
                s.nothing_more("after a refusal")?;
                count("refused at a step", 1);
            } else {
                lose(&mut s, &mut rng, &mut what);
                s.fails("after losing the modem")?;
                s.nothing_more("after losing the modem")?;
                count("modem lost at a step", 1);
            }
        }
        4 | 5 => {
            // The connection is not made.
            let mut s = start(&mut rng, args)?;
            until_connect(&mut s, &id, &mut rng, true)?;
            let how = rng.below(4);
            what.push(how as u8);
            if rng.chance(1, 2) {
                s.settle()?;
                s.nothing_more("while connecting")?;
                if s.prog.status.is_some() {
                    return Err(s.explain(End::Bad(crate::common::Bad { what: "the program ended".into(), detail: "while connecting".into() })));
                }
            }
            match how {
                0 => s.m().send("WRONG"),
                1 => {
                    s.m().send("OK");
                    s.m().send("DISCONNECTED");
                }
                2 => lose(&mut s, &mut rng, &mut what),
                _ => {
                    s.m().send("OK");
                    lose(&mut s, &mut rng, &mut what);
                }
            }
            s.fails("after a failed connection")?;
            if !s.printed().is_empty() {
                return Err(s.explain(End::Bad(crate::common::Bad { what: "wrong output".into(), detail: "printed without a connection".into() })));
            }
            count("connects that failed", 1);
        }
        _ => {
            let mut s = start(&mut rng, args)?;
            let lg = s.logging;
            // Input typed ahead.
            let ahead = rng.below(6);
            let entry = |rng: &mut Rng| -> Vec<u8> {
                let n = rng.range(0, 20);
                let mut v: Vec<u8> = (0..n).map(|_| rng.range(32, 126) as u8).collect();
                v.push(b'\n');
                v
            };
            let (e1, e2) = (entry(&mut rng), entry(&mut rng));
            if ahead == 0 {
                s.prog.enter(&e1)?;
            } else if ahead == 1 {
                s.prog.enter(&[&e1[..], &e2[..]].concat())?;
            }
            until_connect(&mut s, &id, &mut rng, true)?;
            s.m().send("OK");
            if rng.chance(1, 3) {
                s.settle()?;
            }
            let c = format!("CONNECTED {} {}", id.de, id.target);
            s.pause(6);
            s.m().send(&c);
            s.pause(6);
            if kind <= 7 {
                // A connection that ends before it was noticed counts as a failed attempt.
                s.settle()?;
            }
            if rng.chance(1, 2) {
                let b = rig_output(&mut rng);
                s.rig.send(&b);
            }
            let mut lines: Vec<Vec<u8>> = (0..rng.range(0, 12)).map(|_| text(&mut rng, lg)).collect();
            let mut bytes: Vec<u8> = vec![];
            for l in &lines {
                bytes.extend(l);
                bytes.push(b'\r');
            }
            count("lines that are not UTF-8", lines.iter().filter(|l| std::str::from_utf8(l).is_err()).count() as u64);
            if kind <= 7 {
                // The connection is lost before the prompt.
                let cut = text(&mut rng, lg);
                if rng.chance(1, 2) {
                    bytes.extend(&cut);
                }
                send_data(&mut s, &mut rng, &bytes, &[], usize::MAX)?;
                s.wait("the data to be delivered", |s| Ok(s.m().data.delivered()))?;
                let how = rng.below(4);
                what.push(how as u8);
                match how {
                    0 | 1 => s.m().send("DISCONNECTED"),
                    2 => s.m().data.shutdown_write(),
                    _ => lose(&mut s, &mut rng, &mut what),
                }
                s.fails("after losing the connection before the prompt")?;
                check_printed(&s, &lines, "connection lost before the prompt")?;
                count("lost before the prompt", 1);
            } else {
                let p = prompt(&mut rng, lg);
                bytes.extend(&p);
                bytes.push(b'\r');
                lines.push(p);
                let shown_first = lines.len();
                // Sometimes more arrives along with the prompt.
                let rest: Vec<Vec<u8>> = (0..rng.range(0, 8)).map(|_| if rng.chance(1, 5) { prompt(&mut rng, lg) } else { text(&mut rng, lg) }).collect();
                count("lines that are not UTF-8", rest.iter().filter(|l| std::str::from_utf8(l).is_err()).count() as u64);
                let mut more = vec![];
                for l in &rest {
                    more.extend(l);
                    more.push(b'\r');
                }
                let along = if ahead > 1 && rng.chance(1, 3) { rng.range(0, more.len()) } else { 0 };
                if along > 0 {
                    count("received along with the prompt", 1);
                    bytes.extend(&more[..along]);
                    more.drain(..along);
                }
                send_data(&mut s, &mut rng, &bytes, &[], if ahead > 1 { shown_first } else { usize::MAX })?;
                s.wait("the lines up to the prompt to be printed", |s| {
                    if let Some(x) = s.prog.status {
                        return bad("the program ended", format!("before the prompt: {x}"));
                    }
                    let want = shown(&lines).len();
                    Ok(String::from_utf8_lossy(&s.printed()).len() >= want)
                })?;
                if rng.chance(1, 2) {
                    s.settle()?;
                }
                check_printed(&s, &lines, "at the prompt")?;
                let ident = format!("[plusendi-{}-B2FWIHJM$]\rFF\r", std::env::var("VERIF_VERSION").unwrap_or_else(|_| "0.1.0".into())).into_bytes();
                if ahead > 1 {
                    if rng.chance(1, 2) {
                        s.settle()?;
                    }
                    s.pause(4);
                    if !s.m().data.got.is_empty() {
                        let g = s.m().data.got.clone();
                        return bad("sent before the user answered", short_hex(&g));
                    }
                    s.prog.enter(&e1)?;
                }
                s.wait("the identification to be sent", |s| {
                    let got = s.m().data.got.clone();
                    if !ident.starts_with(&got) {
                        return bad("wrong identification", short_hex(&got));
                    }
                    if s.prog.status.is_some() {
                        return bad("the program ended", "instead of identifying itself");
                    }
                    Ok(got == ident)
                })?;
                if ahead == 0 && rng.chance(1, 2) {
                    s.prog.enter(&e2)?;
                }
                // Everything else up to the disconnect.
                let so_far = [&bytes[..], &[]].concat();
                let before = split(&so_far);
                let carry = so_far.len() - before.iter().map(|l| l.len() + 1).sum::<usize>();
                // What came along is shown in one piece with the rest.
                if carry == 0 {
                    send_data(&mut s, &mut rng, &more, &before, usize::MAX)?;
                } else {
                    s.m().data.send(&more);
                }
                let unfinished = text(&mut rng, lg);
                if rng.chance(1, 4) {
                    s.m().data.send(&unfinished);
                }
                lines.extend(rest);
                s.wait("the data to be delivered", |s| Ok(s.m().data.delivered()))?;
                if rng.chance(1, 2) {
                    s.settle()?;
                    check_printed(&s, &lines, "before the disconnect")?;
                }
                s.pause(4);
                let by_eof = rng.chance(1, 6);
                if by_eof {
                    s.m().data.shutdown_write();
                } else {
                    s.m().send("DISCONNECTED");
                }
                let typed = ahead == 1;
                if !typed && ahead > 1 {
                    s.pause(4);
                    s.settle()?;
                    if s.prog.status.is_some() {
                        return Err(s.explain(End::Bad(crate::common::Bad { what: "the program ended".into(), detail: "before the last line of input".into() })));
                    }
                    check_printed(&s, &lines, "after the disconnect")?;
                }
                if typed {
                    count("both lines of input typed ahead", 1);
                }
                if !typed || rng.chance(1, 4) {
                    s.prog.enter(&e2)?;
                }
                s.wait("the program to end", |s| Ok(s.prog.status.is_some()))?;
                s.pump();
                s.crashed()?;
                if !s.prog.status.unwrap().success() {
                    return Err(s.explain(End::Bad(crate::common::Bad { what: "failure reported".into(), detail: "after a complete session".into() })));
                }
                check_printed(&s, &lines, "at the end")?;
                if s.m().data.got != ident {
                    let g = s.m().data.got.clone();
                    return bad("sent more than the identification", short_hex(&g));
                }
                if !by_eof {
                    s.wait("the control connection to be closed", |s| Ok(s.m().ctl.closed.is_some()))?;
                    s.nothing_more("after the remote disconnect")?;
                }
                count("sessions that ended as they should", 1);
                count("lines printed", lines.len() as u64);
                if std::str::from_utf8(&s.prog.out).is_err() && s.logging {
                    // Received lines may be shown as they are, the log must be text.
                    for l in s.prog.out.split(|&b| b == b'\n').filter(|l| !l.starts_with(b"@")) {
                        if std::str::from_utf8(l).is_err() {
                            return bad("log is not UTF-8", short_hex(l));
                        }
                    }
                }
            }
            what.extend(&bytes);
        }
    }
    distinct(hash64(&what));
    distinct_in("kinds of session", kind);
    sample(|| format!("kind {kind}, {} {}, {}", id.de, id.target, hex(&what[..what.len().min(60)])));
    Ok(())
}

fn split_relayed(b: &[u8]) -> R<Vec<bool>> {
    let mut v = vec![];
    for c in b.chunks(3) {
        match c {
            b"TX;" => v.push(true),
            b"RX;" => v.push(false),
            c => return bad("commands at the rig", format!("{} in {}", short_hex(c), short_hex(b))),
        }
    }
    Ok(v)
}

/// `have` is what a burst may be relayed as: some of it in order, the last always.
fn fits(have: &[bool], burst: &[bool]) -> bool {
    if burst.is_empty() {
        return have.is_empty();
    }
    if have.is_empty() || have.last() != burst.last() || have.len() > burst.len() {
        return false;
    }
    let mut i = 0;
    for b in burst {
        if i < have.len() && have[i] == *b {
            i += 1;
        }
    }
    i == have.len()
}

pub fn c29(mut rng: Rng) -> R {
    let (id, args) = ids(&mut rng);
    let mut s = start(&mut rng, args)?;
    let mut hist: Vec<u8> = vec![];
    let mut early = vec![];
    let req = |rng: &mut Rng, early: &mut Vec<bool>, hist: &mut Vec<u8>| -> &'static str {
        let t = rng.chance(1, 2);
        early.push(t);
        hist.push(t as u8);
        count("requests", 1);
        if t {
            "PTT ON"
        } else {
            "PTT OFF"
        }
    };
    // Requests may come before there is a rig to relay them to.
    let early_share = *rng.pick(&[0u64, 0, 30]);
    for l in [format!("MYCALL {}", id.de), "COMPRESSION TEXT".into(), "BW2300".into()] {
        s.expect(&l)?;
        while rng.chance(early_share, 100) {
            let r = req(&mut rng, &mut early, &mut hist);
            s.m().send(r);
            count("requests before the rig was opened", 1);
        }
        s.m().send("OK");
    }
    s.expect(&format!("CONNECT {} {}", id.de, id.target))?;
    let mut at = 0;
    // Returns what was relayed since the last time.
    let relayed = |s: &mut S, at: &mut usize| -> R<Vec<bool>> {
        s.settle()?;
        let v = split_relayed(&s.rig.got)?;
        let new = v[*at..].to_vec();
        *at = v.len();
        count("requests relayed", new.len() as u64);
        Ok(new)
    };
    let new = relayed(&mut s, &mut at)?;
    if !fits(&new, &early) {
        return Err(s.explain(End::Bad(crate::common::Bad { what: "requests relayed".into(), detail: format!("before the connection: {early:?} became {new:?}") })));
    }
    let state = rng.below(3);
    let mut sent = 0;
    if state > 0 {
        s.m().send("OK");
        s.m().send(&format!("CONNECTED {} {}", id.de, id.target));
        sent += 1;
    }
    let rounds = rng.range(3, 14);
    for _ in 0..rounds {
        for _ in 0..rng.range(0, 2) {
            let b = rig_output(&mut rng);
            count("bytes from the rig", b.len() as u64);
            hist.extend(&b[..b.len().min(8)]);
            s.rig.send(&b);
            if rng.chance(1, 2) {
                s.rig.pump();
            }
        }
        if state == 2 && rng.chance(1, 3) {
            let n = rng.range(1, 400);
            let b: Vec<u8> = (0..n).map(|_| *rng.pick(b"abc>.\r\xff")).filter(|&b| b != b'>').collect();
            s.m().data.send(&b);
        }
        hist.push(9);
        if rng.chance(1, 2) {
            // One at a time: exactly it.
            let mut one = vec![];
            let r = req(&mut rng, &mut one, &mut hist);
            let mut b = vec![];
            while rng.chance(1, 4) {
                let mut n = noise(&mut rng);
                while n.starts_with("PTT") {
                    n = noise(&mut rng);
                }
                b.extend(n.as_bytes());
                b.push(b'\r');
            }
            b.extend(r.as_bytes());
            b.push(b'\r');
            if rng.chance(1, 3) {
                let i = rng.range(1, b.len() - 1);
                s.m().ctl.send(&b[..i]);
                s.settle()?;
                s.m().ctl.send(&b[i..]);
            } else {
                s.m().ctl.send(&b);
            }
            let new = relayed(&mut s, &mut at)?;
            if new != one {
                return Err(s.explain(End::Bad(crate::common::Bad { what: "requests relayed".into(), detail: format!("{one:?} alone became {new:?}") })));
            }
            count("single requests checked exactly", 1);
        } else {
            let mut burst = vec![];
            // Sometimes the rig takes nothing for a while, and gets what matters afterwards.
            let held = rng.chance(1, 5);
            if held {
                s.settle()?;
                s.rig.pump();
                s.rig.hold();
            }
            let n = if rng.chance(1, 20) { rng.range(100, 600) } else { rng.range(2, 12) };
            let together = rng.chance(1, 2);
            let mut b = vec![];
            for _ in 0..n {
                let r = req(&mut rng, &mut burst, &mut hist);
                if together {
                    b.extend(r.as_bytes());
                    b.push(b'\r');
                } else {
                    s.m().send(r);
                    for _ in 0..rng.below(2000) {
                        std::hint::spin_loop();
                    }
                }
                if rng.chance(1, 10) {
                    let x = rig_output(&mut rng);
                    count("bytes from the rig", x.len() as u64);
                    s.rig.send(&x);
                    s.pump();
                }
            }
            s.m().ctl.send(&b);
            if held {
                s.settle()?;
                if s.prog.fast && rng.chance(1, 3) {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                }
                s.settle()?;
                s.rig.release();
                count("bursts while the rig took nothing", 1);
            }
            let new = relayed(&mut s, &mut at)?;
            if !fits(&new, &burst) {
                return Err(s.explain(End::Bad(crate::common::Bad {
                    what: "requests relayed".into(),
                    detail: format!("a burst of {}, the last ones {:?}, became {new:?}", burst.len(), &burst[burst.len().saturating_sub(20)..]),
                })));
            }
            count("bursts", 1);
            count("requests overtaken in bursts", (burst.len() - new.len()) as u64);
        }
        if s.prog.status.is_some() {
            return Err(s.explain(End::Bad(crate::common::Bad { what: "the program ended".into(), detail: "in the middle of a session".into() })));
        }
    }
    let _ = sent;
    distinct(hash64(&hist));
    sample(|| format!("{} requests, {} relayed, {}", hist.len(), at, hex(&hist[..hist.len().min(60)])));
    Ok(())
}
