//! C32: the program acts on exactly the configuration it is given. The real program again, its
//! options in many forms and orders, decoys where it must not go, and the rig's line looked at.

use crate::common::{hash64, Bad, Rng};
use crate::e2e::{Prog, Pty};
use crate::world::*;
use crate::Plan;
use std::io::{Read, Seek};
use std::os::unix::io::AsRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, TcpListener};

pub const PLAN32: Plan = Plan {
    stream: "C32",
    quick: 1200,
    thorough: 40_000,
    batch: 16,
    parallel: 8,
    rule: "a case is one run of the program with a configuration, complete and valid or with one thing wrong or missing, decoys listening where it must not connect; non-trivial: distinct list of options",
    floors: &[
        ("configurations followed", 250),
        ("default ports", 20),
        ("derived data ports", 40),
        ("invalid configurations refused", 200),
        ("settings noted", 100),
        ("lines set up", 200),
        ("log levels seen", 150),
        ("log levels from the environment", 30),
        ("settings files present", 50),
        ("rigs that cannot be opened", 40),
    ],
};

const LEVELS: &[&str] = &["off", "error", "warn", "info", "debug", "trace"];
const SPEEDS: &[(&str, u32)] = &[("4800", 4800), ("9600", 9600), ("19200", 19_200), ("38400", 38_400)];

/// The line's speeds in bits per second, inwards and outwards.
fn speeds(p: &Pty) -> (u32, u32) {
    unsafe {
        let mut t: libc::termios2 = std::mem::zeroed();
        libc::ioctl(p.slave_fd(), libc::TCGETS2, &mut t);
        (t.c_ispeed, t.c_ospeed)
    }
}

fn termios(p: &Pty) -> libc::termios {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(p.slave_fd(), &mut t);
        t
    }
}

fn exclusive(p: &Pty) -> bool {
    let mut v: libc::c_int = 0;
    unsafe { libc::ioctl(p.slave_fd(), 0x8004_5440u32 as _, &mut v) == 0 && v != 0 }
}

/// The line as some other program may have left it.
fn left_by_others(p: &Pty, rng: &mut Rng) {
    unsafe {
        let mut t = termios(p);
        if rng.chance(1, 2) {
            t.c_lflag |= libc::ICANON | libc::ECHO | libc::ISIG;
            t.c_iflag |= libc::ICRNL | libc::IXON | libc::ISTRIP;
            t.c_oflag |= libc::OPOST | libc::ONLCR;
        }
        if rng.chance(1, 2) {
            t.c_cflag |= libc::CSTOPB | libc::CRTSCTS;
            t.c_iflag |= libc::IXOFF;
        }
        let s = *rng.pick(&[libc::B1200, libc::B9600, libc::B57600, libc::B115200, libc::B4800]);
        libc::cfsetispeed(&mut t, s);
        libc::cfsetospeed(&mut t, s);
        libc::tcsetattr(p.slave_fd(), libc::TCSANOW, &t);
    }
}

fn same(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_lflag == b.c_lflag && a.c_cflag == b.c_cflag && a.c_cc == b.c_cc
}

struct S {
    prog: Prog,
    rig: Pty,
    lc: TcpListener,
    ld: TcpListener,
    decoys: Vec<TcpListener>,
    c: Option<Conn>,
    d: Option<Conn>,
    args: Vec<String>,
}

impl S {
    fn pump(&mut self) -> bool {
        let mut moved = self.prog.pump() | self.rig.pump();
        for (l, c) in [(&self.lc, &mut self.c), (&self.ld, &mut self.d)] {
            match c {
                None => {
                    if let Ok((s, _)) = l.accept() {
                        *c = Some(Conn::new(s));
                        moved = true;
                    }
                }
                Some(c) => moved |= c.pump(),
            }
        }
        moved
    }
    fn mon(&self) -> Mon {
        Mon { pid: self.prog.pid(), except: 0 }
    }
    fn bad<T>(&self, what: &str, detail: String) -> R<T> {
        Err(self.explain(End::Bad(Bad { what: what.into(), detail })))
    }
    fn explain(&self, e: End) -> End {
        match e {
            End::Bad(mut b) => {
                b.detail = format!(
                    "{} [{:?}; modem received {:?}; program: {:?}, printed {:?}, said {:?}]",
                    b.detail,
                    self.args,
                    self.c.as_ref().map(|c| String::from_utf8_lossy(&c.got).into_owned()),
                    self.prog.status,
                    crate::e2e::tail(&self.prog.out),
                    crate::e2e::tail(&self.prog.err)
                );
                End::Bad(b)
            }
            e => e,
        }
    }
    fn wait(&mut self, what: &str, mut cond: impl FnMut(&mut S) -> bool) -> R {
        let mon = self.mon();
        let r = mon.wait(what, || {
            let p = self.pump();
            if cond(self) {
                return Ok(Step::Done);
            }
            Ok(if p { Step::Progress } else { Step::Idle })
        });
        r.map_err(|e| self.explain(e))
    }
    fn settle(&mut self) -> R {
        let mon = self.mon();
        let r = mon.settle(|| Ok(self.pump()));
        r.map_err(|e| self.explain(e))
    }
    fn lines(&self) -> Vec<String> {
        let g = self.c.as_ref().map(|c| &c.got[..]).unwrap_or(b"");
        let mut v: Vec<String> = g.split(|&b| b == b'\r').map(|l| String::from_utf8_lossy(l).into_owned()).collect();
        v.pop();
        v
    }
    /// The n-th line, or the program's end.
    fn expect(&mut self, n: usize, line: &str) -> R {
        self.wait(&format!("{line:?} to reach the modem"), |s| s.lines().len() > n || s.prog.status.is_some())?;
        match self.lines().get(n) {
            Some(l) if l == line => Ok(()),
            Some(l) => self.bad("wrong command", format!("{l:?} instead of {line:?}")),
            None => self.bad("the program ended", format!("instead of sending {line:?}")),
        }
    }
    fn fails(&mut self, when: &str) -> R {
        self.wait(&format!("the program to end {when}"), |s| s.prog.status.is_some())?;
        self.pump();
        let st = self.prog.status.unwrap();
        if st.success() {
            return self.bad("success reported", when.into());
        }
        if st.code().is_none() || st.code() == Some(101) || st.code() == Some(134) {
            return self.bad("the program crashed", format!("{when}: {st}"));
        }
        Ok(())
    }
    fn decoys_untouched(&self) -> R {
        for l in &self.decoys {
            if l.accept().is_ok() {
                return self.bad("connected elsewhere", format!("{}", l.local_addr().unwrap()));
            }
        }
        if self.lc.accept().is_ok() || self.ld.accept().is_ok() {
            return self.bad("connected twice", String::new());
        }
        Ok(())
    }
}

/// A directory of its own with settings in a `.env`, there or above where the program starts.
struct Scratch {
    top: PathBuf,
    cwd: PathBuf,
}
impl Scratch {
    fn new(settings: &str, below: bool) -> std::io::Result<Scratch> {
        static N: AtomicU64 = AtomicU64::new(0);
        let top = std::env::temp_dir().join(format!("plusendi-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let cwd = if below { top.join("below") } else { top.clone() };
        let s = Scratch { top, cwd };
        std::fs::create_dir_all(&s.cwd)?;
        std::fs::write(s.top.join(".env"), settings)?;
        Ok(s)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.top);
    }
}

/// One option in one of the ways it may be written.
fn opt(rng: &mut Rng, name: &str, value: &str) -> Vec<String> {
    if rng.chance(1, 2) {
        vec![format!("--{name}={value}")]
    } else {
        vec![format!("--{name}"), value.into()]
    }
}

/// Text without the terminal's colour codes.
fn uncoloured(text: &str) -> String {
    let mut out = String::new();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Which levels appear in the log: a level's name is a word among the first of a line. The
/// station's own lines begin with an at sign here.
fn levels_seen(out: &[u8]) -> Vec<&'static str> {
    let text = uncoloured(&String::from_utf8_lossy(out));
    let mut v = vec![];
    for l in &LEVELS[1..] {
        let mark = l.to_uppercase();
        if text.lines().any(|x| !x.starts_with('@') && x.split_whitespace().take(4).any(|w| w.trim_matches(|c: char| !c.is_ascii_alphabetic()) == mark)) {
            v.push(*l);
        }
    }
    v
}

pub fn c32(mut rng: Rng) -> R {
    let rng = &mut rng;
    let wrong = rng.chance(2, 5);
    // Where the modem is.
    let v6 = rng.chance(1, 8) && listener(IpAddr::V6(Ipv6Addr::LOCALHOST), 0).is_ok();
    let plain = !v6 && rng.chance(1, 3);
    let ip = if v6 {
        IpAddr::V6(Ipv6Addr::LOCALHOST)
    } else if plain {
        IpAddr::V4(Ipv4Addr::LOCALHOST)
    } else {
        IpAddr::V4(Ipv4Addr::new(127, rng.range(1, 255) as u8, rng.byte(), rng.range(1, 254) as u8))
    };
    let default_port = !plain && !v6 && rng.chance(1, 3);
    let derived = rng.chance(1, 2);
    let mut tries = 0;
    let (lc, ld) = loop {
        tries += 1;
        if tries > 100 {
            return inc("harness: no two ports");
        }
        let Ok(lc) = listener(ip, if default_port { 8300 } else { 0 }) else { return inc("harness: the port is taken") };
        let p = port(&lc);
        if derived {
            if p < u16::MAX {
                if let Ok(ld) = listener(ip, p + 1) {
                    break (lc, ld);
                }
            }
        } else {
            break (lc, io("listen", listener(ip, 0))?);
        }
    };
    // Where it is not.
    let mut decoys = vec![];
    let mut decoy = |ip: IpAddr, p: u32| {
        if p <= 65535 {
            if let Ok(l) = listener(ip, p as u16) {
                decoys.push(l);
            }
        }
    };
    if !derived {
        decoy(ip, port(&lc) as u32 + 1);
    }
    if !plain && !default_port {
        decoy(ip, 8300);
        decoy(ip, 8301);
    }
    if !plain {
        decoy(IpAddr::V4(Ipv4Addr::LOCALHOST), port(&lc) as u32);
        decoy(IpAddr::V4(Ipv4Addr::LOCALHOST), port(&ld) as u32);
    }
    // Who connects to whom, and how it is written.
    let (de, target) = (callsign(rng), callsign(rng));
    let lower = |rng: &mut Rng, s: &str| if rng.chance(1, 3) { s.to_lowercase() } else { s.to_string() };
    let mut items: Vec<(&str, Vec<String>)> = vec![("target", vec![lower(rng, &target)])];
    let de_arg = lower(rng, &de);
    items.push(("de", if rng.chance(1, 3) { vec!["-d".into(), de_arg] } else { opt(rng, "de", &de_arg) }));
    if !plain || rng.chance(1, 2) {
        items.push(("address", opt(rng, "modem-address", &ip.to_string())));
    }
    if !default_port || rng.chance(1, 3) {
        items.push(("control", opt(rng, "modem-control-port", &port(&lc).to_string())));
    }
    if !derived || rng.chance(1, 4) {
        items.push(("data", opt(rng, "modem-data-port", &port(&ld).to_string())));
    }
    let rig = io("open a pseudo terminal", Pty::new())?;
    left_by_others(&rig, rng);
    let (speed, code) = *rng.pick(SPEEDS);
    items.push(("rig", opt(rng, "rig-control", &rig.path)));
    items.push(("baud", opt(rng, "rig-baud", speed)));
    let mut env: Vec<(String, String)> = vec![];
    let mut level = "info";
    let mut from_env = false;
    if rng.chance(1, 3) {
        level = rng.pick(LEVELS);
        from_env = true;
        env.push(("RUST_LOG".into(), level.into()));
    }
    let mut dotenv = None;
    if rng.chance(1, 4) {
        let l = rng.pick(LEVELS);
        dotenv = Some(format!("# settings\nOTHER=thing\nRUST_LOG={l}\n"));
        if env.is_empty() {
            level = l;
            from_env = true;
        }
    }
    if rng.chance(1, 2) {
        level = rng.pick(LEVELS);
        from_env = false;
        let filter = match rng.below(6) {
            0 => format!("plusendi={level}"),
            1 => format!("off,plusendi={level}"),
            2 => level.to_uppercase(),
            _ => level.to_string(),
        };
        items.push(("log", if rng.chance(1, 3) { vec!["-l".into(), filter] } else { opt(rng, "log", &filter) }));
    }
    let mut rig_gone = false;
    let mut flaw = String::new();
    if wrong {
        let place = |items: &mut Vec<(&str, Vec<String>)>, key: &'static str, v: Option<Vec<String>>| {
            items.retain(|x| x.0 != key);
            if let Some(v) = v {
                items.push((key, v));
            }
        };
        match rng.below(12) {
            0 => {
                let k = *rng.pick(&["target", "de", "rig", "baud"]);
                place(&mut items, k, None);
                flaw = format!("no {k}");
            }
            1 => {
                let b = *rng.pick(&["0", "1200", "2400", "9601", "57600", "115200", "96000", "fast", "-9600", "4800.0", ""]);
                place(&mut items, "baud", Some(vec![format!("--rig-baud={b}")]));
                flaw = format!("speed {b:?}");
            }
            2 => {
                let a = *rng.pick(&["localhost", "127.0.0", "127.0.0.1.1", "256.0.0.1", "::g", "", "127.0.0.1:8300", "modem"]);
                place(&mut items, "address", Some(vec![format!("--modem-address={a}")]));
                flaw = format!("address {a:?}");
            }
            3 => {
                let p = *rng.pick(&["0", "65536", "-1", "83OO", "", "8300,", "4294975596"]);
                place(&mut items, "control", Some(vec![format!("--modem-control-port={p}")]));
                flaw = format!("control port {p:?}");
            }
            4 => {
                let p = *rng.pick(&["0", "65536", "-1", "x", "", "131072"]);
                place(&mut items, "data", Some(vec![format!("--modem-data-port={p}")]));
                flaw = format!("data port {p:?}");
            }
            5 => {
                place(&mut items, "control", Some(vec!["--modem-control-port=65535".into()]));
                place(&mut items, "data", None);
                flaw = "no port above the control port".into();
            }
            6 => {
                let l = *rng.pick(&["plusendi=loud", "a=b=c", "[", "info,[x", "plusendi=debug=trace"]);
                place(&mut items, "log", Some(vec![format!("--log={l}")]));
                flaw = format!("log {l:?}");
            }
            7 => {
                let o = *rng.pick(&["--modem", "--rig", "--power=100", "-x", "extra1"]);
                items.push(("extra", vec![o.into()]));
                flaw = format!("unknown {o:?}");
            }
            8 => {
                let k = rng.pick(&["--modem-control-port=8300", "--rig-baud=9600", "--modem-address=127.0.0.1", "--de=KC1GSL"]).to_string();
                let key = match &k[2..5] {
                    "rig" => "baud",
                    "de=" => "de",
                    _ if k.contains("address") => "address",
                    _ => "control",
                };
                if !items.iter().any(|x| x.0 == key) {
                    items.push((key, vec![k.clone()]));
                }
                items.push(("again", vec![k.clone()]));
                flaw = format!("twice {k:?}");
            }
            _ => {
                let p = *rng.pick(&["/dev/null", "/dev/pts/99999", "/nonexistent/rig", "/", "COM3"]);
                place(&mut items, "rig", Some(vec![format!("--rig-control={p}")]));
                rig_gone = true;
                flaw = format!("rig {p:?}");
            }
        }
    }
    rng.shuffle(&mut items);
    let args: Vec<String> = items.into_iter().flat_map(|x| x.1).collect();
    distinct(hash64(format!("{args:?}{env:?}").as_bytes()));
    let before = termios(&rig);
    let dir = match &dotenv {
        Some(d) => Some(io("make a directory", Scratch::new(d, rng.chance(1, 3)))?),
        None => None,
    };
    // Sometimes with notes taken of how the line is set up.
    let mut notes = None;
    if let (Ok(so), true) = (std::env::var("VERIF_LINE"), rng.chance(2, 3)) {
        if !so.is_empty() {
            let f = unsafe {
                let fd = libc::memfd_create(c"line".as_ptr(), 0);
                if fd < 0 {
                    return inc("harness: no memory for notes");
                }
                std::os::unix::io::FromRawFd::from_raw_fd(fd)
            };
            let f: std::fs::File = f;
            env.push(("LD_PRELOAD".into(), so));
            env.push(("LINE_FD".into(), f.as_raw_fd().to_string()));
            notes = Some(f);
        }
    }
    let prog = Prog::start_in(dir.as_ref().map_or("/".as_ref(), |d| &d.cwd), &args, &env)?;
    let mut s = S { prog, rig, lc, ld, decoys, c: None, d: None, args };
    if wrong && !rig_gone {
        s.fails(&format!("with {flaw}"))?;
        s.pump();
        if s.c.is_some() || s.d.is_some() {
            return s.bad("contacted the modem", format!("with {flaw}"));
        }
        s.decoys_untouched()?;
        if !same(&before, &termios(&s.rig)) || exclusive(&s.rig) || !s.rig.got.is_empty() {
            return s.bad("touched the rig", format!("with {flaw}"));
        }
        count("invalid configurations refused", 1);
        sample(|| format!("{flaw}: refused"));
        return Ok(());
    }
    let steps = [format!("MYCALL {de}"), "COMPRESSION TEXT".into(), "BW2300".into()];
    for (i, l) in steps.iter().enumerate() {
        s.expect(i, l)?;
        s.c.as_mut().unwrap().send(b"OK\r");
    }
    if rig_gone {
        s.fails(&format!("with {flaw}"))?;
        if s.lines().len() > 3 {
            return s.bad("connection requested", format!("with {flaw}"));
        }
        count("rigs that cannot be opened", 1);
        return Ok(());
    }
    s.expect(3, &format!("CONNECT {de} {target}"))?;
    if s.d.is_none() || !s.d.as_ref().unwrap().got.is_empty() {
        return s.bad("data connection", "missing, or written to before there is a connection".into());
    }
    // By now the rig has been opened.
    let t = termios(&s.rig);
    let (i, o) = speeds(&s.rig);
    if i != code || o != code {
        return s.bad("wrong speed", format!("{speed} asked for, the line has {i} in, {o} out"));
    }
    let odd = [
        (t.c_lflag & (libc::ICANON | libc::ECHO | libc::ISIG) != 0, "canonical mode, echo or signals"),
        (t.c_iflag & (libc::ICRNL | libc::INLCR | libc::IGNCR | libc::ISTRIP | libc::IXON) != 0, "input translation"),
        (t.c_oflag & libc::OPOST != 0, "output translation"),
        (t.c_cflag & libc::CSIZE != libc::CS8, "not 8 bits"),
        (t.c_cflag & libc::CSTOPB != 0, "two stop bits"),
        (t.c_cflag & libc::CRTSCTS != 0 || t.c_iflag & libc::IXOFF != 0, "flow control"),
    ];
    for (is, what) in odd {
        if is {
            return s.bad("the line translates", what.into());
        }
    }
    if let Some(mut f) = notes {
        // A pseudo terminal always has 8 bits and no parity, a real line does not.
        let mut b = vec![];
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let _ = f.read_to_end(&mut b);
        if let Some(c) = b.chunks_exact(4).last() {
            let c = u32::from_ne_bytes([c[0], c[1], c[2], c[3]]);
            if c & libc::CSIZE != libc::CS8 || c & libc::PARENB != 0 || c & libc::CSTOPB != 0 || c & libc::CRTSCTS != 0 {
                return s.bad("the line translates", format!("set up for something else than 8 bits, no parity, one stop bit and no flow control: {c:o}"));
            }
            count("settings noted", 1);
        }
    }
    if !exclusive(&s.rig) {
        return s.bad("the line is not exclusive", String::new());
    }
    count("lines set up", 1);
    // What the rig sees is this program's.
    s.c.as_mut().unwrap().send(b"PTT ON\r");
    s.wait("the transmitter to be switched", |s| s.rig.got.len() >= 3 || s.prog.status.is_some())?;
    s.settle()?;
    if s.rig.got != b"TX;" {
        return s.bad("the rig got something else", format!("{:?}", String::from_utf8_lossy(&s.rig.got)));
    }
    s.c.as_mut().unwrap().send(format!("OK\rCONNECTED {de} {target}\r").as_bytes());
    let d = b"@hello\r@there>\r";
    s.d.as_mut().unwrap().send(d);
    s.wait("the prompt to be shown", |s| s.prog.status.is_some() || String::from_utf8_lossy(&s.prog.out).contains("@there>\n"))?;
    if s.prog.status.is_some() {
        return s.bad("the program ended", "before the prompt".into());
    }
    s.settle()?;
    s.decoys_untouched()?;
    // How much it says.
    let seen = levels_seen(&s.prog.out);
    let max = LEVELS.iter().position(|l| *l == level).unwrap();
    for l in &seen {
        if LEVELS.iter().position(|x| x == l).unwrap() > max {
            return s.bad("logs more than asked for", format!("{l} at level {level}"));
        }
    }
    if max >= 3 && !seen.contains(&level) {
        return s.bad("logs less than asked for", format!("nothing of {level}, only {seen:?}"));
    }
    count("log levels seen", 1);
    count("log levels from the environment", from_env as u64);
    count("settings files present", dotenv.is_some() as u64);
    count("default ports", default_port as u64);
    count("derived data ports", derived as u64);
    count("configurations followed", 1);
    sample(|| format!("{:?}", s.args));
    Ok(())
}
