//! The world a scenario runs in: a runtime for the code under test, a simulated modem driven by
//! this thread, and a monitor that tells progress from standstill and from spinning without ever
//! judging by the clock.

use crate::common::{Bad, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::future::Future;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use plusendi::modem::vara::VaraTnc;

pub enum End {
    Bad(Bad),
    Inc(String),
}
pub type R<T = ()> = Result<T, End>;

pub fn bad<T>(what: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(End::Bad(Bad { what: what.into(), detail: detail.into() }))
}
pub fn inc<T>(why: impl Into<String>) -> R<T> {
    Err(End::Inc(why.into()))
}
pub fn io<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| End::Inc(format!("harness: {what}: {e}")))
}

// ---------------------------------------------------------------- what was observed

#[derive(Default)]
pub struct Rep {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
}

thread_local! {
    static REP: RefCell<Rep> = RefCell::default();
}
pub fn count(key: &str, n: u64) {
    REP.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(v) = r.counters.get_mut(key) {
            *v += n
        } else {
            r.counters.insert(key.into(), n);
        }
    })
}
pub fn maximum(key: &str, v: u64) {
    REP.with(|r| {
        let mut r = r.borrow_mut();
        let e = r.maxima.entry(key.into()).or_insert(0);
        *e = (*e).max(v)
    })
}
pub fn distinct(h: u64) {
    REP.with(|r| r.borrow_mut().distinct.insert(h));
}
pub fn distinct_in(set: &str, h: u64) {
    REP.with(|r| r.borrow_mut().sets.entry(set.into()).or_default().insert(h));
}
pub fn sample(s: impl FnOnce() -> String) {
    REP.with(|r| {
        let mut r = r.borrow_mut();
        if r.samples.len() < 2 {
            let s = s();
            r.samples.push(s)
        }
    })
}
pub fn take_rep() -> Rep {
    REP.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

// ---------------------------------------------------------------- watching threads

/// Threads of a process (this one's driver excluded): what they do and what they used.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Scan {
    threads: BTreeMap<u64, (char, u64, u64)>, // state, processor time in ns, times scheduled
}

impl Scan {
    pub fn of(pid: u32, except: u64) -> Scan {
        let mut threads = BTreeMap::new();
        let dir = format!("/proc/{pid}/task");
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() {
                let Some(tid) = e.file_name().to_str().and_then(|s| s.parse::<u64>().ok()) else { continue };
                if tid == except || tid == WATCHER.load(std::sync::atomic::Ordering::SeqCst) {
                    continue;
                }
                // State before usage: a thread seen asleep whose counters then equal those of the
                // previous scan has slept all along.
                let Ok(stat) = std::fs::read_to_string(format!("{dir}/{tid}/stat")) else { continue };
                let Some(i) = stat.rfind(')') else { continue };
                let state = stat[i + 1..].trim_start().chars().next().unwrap_or('?');
                let Ok(ss) = std::fs::read_to_string(format!("{dir}/{tid}/schedstat")) else { continue };
                let f: Vec<u64> = ss.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if f.len() < 3 {
                    continue;
                }
                threads.insert(tid, (state, f[0], f[2]));
            }
        }
        Scan { threads }
    }
    pub fn asleep(&self) -> bool {
        self.threads.values().all(|t| t.0 == 'S' || t.0 == 'Z')
    }
    /// Processor time used since `base`, by threads that are still there.
    pub fn used_since(&self, base: &Scan) -> u64 {
        self.threads.iter().map(|(t, v)| v.1.saturating_sub(base.threads.get(t).map_or(0, |b| b.1))).sum()
    }
}

/// Longer than any delay the loopback network adds while every thread sleeps.
const STUCK: Duration = Duration::from_millis(3000);
/// Far more processor time than any step of a scenario takes.
const SPIN_NS: u64 = 8_000_000_000;
const REST_NS: u64 = 2_000_000_000;
/// Beyond this nothing is concluded.
const WATCHDOG: Duration = Duration::from_secs(150);

/// How much slower than usual everything is, under a sanitizer for instance.
fn slow() -> u64 {
    static SLOW: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *SLOW.get_or_init(|| std::env::var("VERIF_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1))
}

/// The harness's own thread that looks after the processor time of a case.
pub static WATCHER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Mon {
    pub pid: u32,
    pub except: u64,
}

pub enum Step {
    Done,
    Progress,
    Idle,
}

impl Mon {
    pub fn own() -> Mon {
        Mon { pid: std::process::id(), except: crate::common::gettid() }
    }
    pub fn scan(&self) -> Scan {
        Scan::of(self.pid, self.except)
    }

    /// Repeats `step` until it is done. Everything asleep with nothing left to happen is a
    /// standstill, unbounded use of the processor is spinning; both are violations.
    pub fn wait(&self, what: &str, mut step: impl FnMut() -> R<Step>) -> R {
        let begun = Instant::now();
        let mut base: Option<Scan> = None;
        let mut last = Scan::default();
        let mut since = Instant::now();
        let mut next_scan = Instant::now() + Duration::from_millis(5);
        let mut nap = 0u32;
        loop {
            match step()? {
                Step::Done => return Ok(()),
                Step::Progress => {
                    since = Instant::now();
                    nap = 0;
                }
                Step::Idle => {}
            }
            if nap < 20 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(if nap < 200 { 100 } else { 500 }));
            }
            nap += 1;
            if Instant::now() >= next_scan {
                next_scan = Instant::now() + Duration::from_millis(10);
                let now = self.scan();
                let base = base.get_or_insert_with(|| now.clone());
                if now.used_since(base) > SPIN_NS * slow() {
                    return bad("spinning", format!("over {} s of processor time while waiting for: {what}", SPIN_NS * slow() / 1_000_000_000));
                }
                if !(now.asleep() && now == last) {
                    since = Instant::now();
                    last = now;
                } else if since.elapsed() > STUCK {
                    return bad("standstill", format!("everything sleeps, still waiting for: {what}"));
                }
                if begun.elapsed() > WATCHDOG {
                    return inc(format!("watchdog while waiting for: {what}"));
                }
            }
        }
    }

    /// Waits until every other thread sleeps and nothing moves any more.
    pub fn settle(&self, mut pump: impl FnMut() -> R<bool>) -> R {
        let begun = Instant::now();
        let first = self.scan();
        let mut last = first.clone();
        let mut same = 0;
        loop {
            if pump()? {
                same = 0;
            }
            std::thread::sleep(Duration::from_micros(1000));
            let now = self.scan();
            if now.asleep() && now == last {
                same += 1;
                if same >= 3 {
                    return Ok(());
                }
            } else {
                same = 0;
            }
            if now.used_since(&first) > REST_NS * slow() {
                return bad("never at rest", format!("over {} s of processor time with nothing to do", REST_NS * slow() / 1_000_000_000));
            }
            if begun.elapsed() > WATCHDOG {
                return inc("watchdog while waiting for rest");
            }
            last = now;
        }
    }
}

// ---------------------------------------------------------------- runtimes

pub struct Rt {
    pub handle: tokio::runtime::Handle,
    pub flavour: &'static str,
    stop: Arc<tokio::sync::Notify>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Rt {
    pub fn new(rng: &mut Rng) -> Rt {
        let kind = rng.below(4);
        Rt::of(if kind == 0 && rng.chance(1, 2) { 4 } else { kind })
    }
    pub fn of(kind: u64) -> Rt {
        let (tx, rx) = std::sync::mpsc::channel();
        let stop = Arc::new(tokio::sync::Notify::new());
        let stop2 = stop.clone();
        let flavour = ["single", "one worker", "two workers", "four workers", "single, all time passing at once"][kind as usize];
        let thread = std::thread::spawn(move || {
            let rt = match kind {
                0 => tokio::runtime::Builder::new_current_thread().enable_all().build(),
                // With its clock stopped, tokio lets any time pass as soon as there is nothing else to do:
                // whatever is only waited for some time is given up at once.
                4 => tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build(),
                k => tokio::runtime::Builder::new_multi_thread().worker_threads([1, 2, 4][k as usize - 1]).enable_all().build(),
            }
            .expect("runtime");
            tx.send(rt.handle().clone()).unwrap();
            rt.block_on(stop2.notified());
            rt.shutdown_background();
        });
        Rt { handle: rx.recv().expect("runtime"), flavour, stop, thread: Some(thread) }
    }
}

impl Drop for Rt {
    fn drop(&mut self) {
        self.stop.notify_one();
        if !std::thread::panicking() {
            // A wedged runtime must not wedge the harness: the process ends after the case.
            let t = self.thread.take().unwrap();
            let begun = Instant::now();
            while !t.is_finished() && begun.elapsed() < Duration::from_secs(5) {
                std::thread::sleep(Duration::from_micros(50));
            }
            if t.is_finished() {
                let _ = t.join();
            } else {
                WEDGED.store(true, std::sync::atomic::Ordering::SeqCst);
            }
        }
    }
}
pub static WEDGED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// An asynchronous operation whose result this thread picks up.
pub struct Call<T> {
    slot: Arc<Mutex<Option<T>>>,
    task: tokio::task::JoinHandle<()>,
}
impl<T: Send + 'static> Call<T> {
    pub fn spawn(rt: &Rt, f: impl Future<Output = T> + Send + 'static) -> Call<T> {
        let slot = Arc::new(Mutex::new(None));
        let s = slot.clone();
        let task = rt.handle.spawn(async move {
            let r = f.await;
            *s.lock().unwrap() = Some(r);
        });
        Call { slot, task }
    }
    pub fn done(&self) -> bool {
        self.slot.lock().unwrap().is_some()
    }
    pub fn take(&self) -> Option<T> {
        self.slot.lock().unwrap().take()
    }
    pub fn abort(&self) {
        self.task.abort()
    }
}

/// Gives up after `n` polls.
pub struct PollLimit<F> {
    pub inner: Pin<Box<F>>,
    pub left: usize,
}
impl<F: Future> PollLimit<F> {
    pub fn new(f: F, n: usize) -> Self {
        PollLimit { inner: Box::pin(f), left: n }
    }
}
impl<F: Future> Future for PollLimit<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        match self.inner.as_mut().poll(cx) {
            Poll::Ready(r) => Poll::Ready(Some(r)),
            Poll::Pending => {
                if self.left == 0 {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
        }
    }
}

// ---------------------------------------------------------------- the modem

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Closed {
    Eof,
    Reset,
}

pub struct Conn {
    pub s: Option<TcpStream>,
    pub got: Vec<u8>,
    pub out: VecDeque<u8>,
    /// How the other side closed.
    pub closed: Option<Closed>,
    /// How many bytes to take per turn; 0 leaves everything in the socket.
    pub appetite: usize,
    pub sent: u64,
}

impl Conn {
    pub fn new(s: TcpStream) -> Conn {
        s.set_nonblocking(true).unwrap();
        let _ = s.set_nodelay(true);
        Conn { s: Some(s), got: Vec::new(), out: VecDeque::new(), closed: None, appetite: usize::MAX, sent: 0 }
    }
    pub fn pump(&mut self) -> bool {
        let Some(s) = &mut self.s else { return false };
        let mut moved = false;
        let mut left = self.appetite;
        let mut buf = [0u8; 16384];
        while left > 0 && self.closed.is_none() {
            let n = left.min(buf.len());
            match s.read(&mut buf[..n]) {
                Ok(0) => {
                    self.closed = Some(Closed::Eof);
                    moved = true;
                }
                Ok(n) => {
                    self.got.extend_from_slice(&buf[..n]);
                    left -= n;
                    moved = true;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    self.closed = Some(Closed::Reset);
                    moved = true;
                }
            }
        }
        // What the other end's kernel holds back until this end acknowledges is to come at once.
        let on: libc::c_int = 1;
        unsafe {
            libc::setsockopt(
                s.as_raw_fd(),
                libc::IPPROTO_TCP,
                libc::TCP_QUICKACK,
                &on as *const _ as *const libc::c_void,
                std::mem::size_of_val(&on) as u32,
            )
        };
        while !self.out.is_empty() {
            let (a, _) = self.out.as_slices();
            match s.write(a) {
                Ok(0) => break,
                Ok(n) => {
                    self.out.drain(..n);
                    self.sent += n as u64;
                    moved = true;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    self.out.clear();
                }
            }
        }
        moved
    }
    pub fn send(&mut self, b: &[u8]) {
        self.out.extend(b);
        self.pump();
    }
    /// Everything sent has arrived at the other end's socket.
    pub fn delivered(&self) -> bool {
        if !self.out.is_empty() {
            return false;
        }
        let Some(s) = &self.s else { return true };
        let mut n: libc::c_int = 0;
        unsafe { libc::ioctl(s.as_raw_fd(), libc::TIOCOUTQ, &mut n) };
        n == 0
    }
    /// How much lies in the socket, not yet taken.
    pub fn waiting(&self) -> usize {
        let Some(s) = &self.s else { return 0 };
        let mut n: libc::c_int = 0;
        unsafe { libc::ioctl(s.as_raw_fd(), libc::FIONREAD, &mut n) };
        n as usize
    }
    /// Makes the other end's socket, in this process, take only a few thousand bytes at a time.
    pub fn shrink_peer(&self) -> bool {
        let Some(fd) = self.peer_fd() else { return false };
        let n: libc::c_int = 4096;
        unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const _ as *const libc::c_void, 4) };
        true
    }
    /// How much the other end has written that was not sent to this socket yet.
    pub fn held_at_peer(&self) -> usize {
        const SIOCOUTQNSD: libc::c_ulong = 0x894B;
        self.peer_queue(SIOCOUTQNSD)
    }
    /// How much the other end has written whose arrival it has not been told of.
    pub fn unacknowledged_at_peer(&self) -> usize {
        self.peer_queue(libc::TIOCOUTQ as _)
    }
    fn peer_queue(&self, request: libc::c_ulong) -> usize {
        let mut n: libc::c_int = 0;
        if let Some(fd) = self.peer_fd() {
            unsafe { libc::ioctl(fd, request as _, &mut n) };
        }
        n as usize
    }
    /// The other end's socket, in this process.
    fn peer_fd(&self) -> Option<libc::c_int> {
        let Some(Ok(peer)) = self.s.as_ref().map(|s| s.peer_addr()) else { return None };
        for fd in 3..1024 {
            use std::os::unix::io::FromRawFd;
            let mut kind: libc::c_int = 0;
            let mut len = std::mem::size_of_val(&kind) as u32;
            let r = unsafe { libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut kind as *mut _ as *mut libc::c_void, &mut len) };
            if r != 0 || kind != libc::SOCK_STREAM {
                continue;
            }
            // Only looked at: never closed here.
            let s = std::mem::ManuallyDrop::new(unsafe { TcpStream::from_raw_fd(fd) });
            if s.local_addr().ok() == Some(peer) && s.peer_addr().is_ok() {
                return Some(fd);
            }
        }
        None
    }
    pub fn shutdown_write(&mut self) {
        if let Some(s) = &self.s {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
    }
    fn linger0(&self) {
        if let Some(s) = &self.s {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of_val(&l) as u32,
                )
            };
        }
    }
    pub fn reset(&mut self) {
        self.linger0();
        self.s = None;
    }
    pub fn close(&mut self) {
        self.s = None;
    }
}

impl Drop for Conn {
    fn drop(&mut self) {
        self.linger0();
    }
}

pub fn listener(addr: IpAddr, port: u16) -> std::io::Result<TcpListener> {
    let l = TcpListener::bind(SocketAddr::new(addr, port))?;
    l.set_nonblocking(true)?;
    Ok(l)
}
pub fn port(l: &TcpListener) -> u16 {
    l.local_addr().unwrap().port()
}

pub struct Modem {
    pub ctl: Conn,
    pub data: Conn,
    consumed: usize,
    pub lines: Vec<String>,
    /// Lines the scenario has looked at.
    pub seen: usize,
    /// Small buffers on the control connection.
    pub narrow: bool,
}

impl Modem {
    pub fn new(ctl: TcpStream, data: TcpStream) -> Modem {
        Modem { ctl: Conn::new(ctl), data: Conn::new(data), consumed: 0, lines: vec![], seen: 0, narrow: false }
    }
    pub fn pump(&mut self) -> bool {
        let a = self.ctl.pump();
        let b = self.data.pump();
        while let Some(i) = self.ctl.got[self.consumed..].iter().position(|&b| b == b'\r') {
            let l = &self.ctl.got[self.consumed..self.consumed + i];
            self.lines.push(match std::str::from_utf8(l) {
                Ok(s) => s.to_string(),
                Err(_) => format!("<not UTF-8: {}>", crate::common::hex(l)),
            });
            self.consumed += i + 1;
        }
        a || b
    }
    pub fn partial(&self) -> &[u8] {
        &self.ctl.got[self.consumed..]
    }
    pub fn send(&mut self, line: &str) {
        let mut v = line.as_bytes().to_vec();
        v.push(b'\r');
        self.ctl.send(&v);
    }
    /// The next line not looked at yet.
    pub fn next(&mut self) -> Option<String> {
        self.pump();
        let l = self.lines.get(self.seen).cloned();
        if l.is_some() {
            self.seen += 1;
        }
        l
    }
}

pub struct W {
    pub rng: Rng,
    pub mon: Mon,
    pub rt: Rt,
    pub case: u64,
}

impl W {
    pub fn new(mut rng: Rng, case: u64) -> W {
        let rt = Rt::new(&mut rng);
        count(&format!("runtime: {}", rt.flavour), 1);
        W { rng, mon: Mon::own(), rt, case }
    }
    pub fn wait(&self, m: &mut Modem, what: &str, mut cond: impl FnMut(&mut Modem) -> R<bool>) -> R {
        self.mon.wait(what, || {
            let p = m.pump();
            let r = cond(m)?;
            panics()?;
            Ok(if r {
                Step::Done
            } else if p {
                Step::Progress
            } else {
                Step::Idle
            })
        })
    }
    pub fn settle(&self, m: &mut Modem) -> R {
        count("times at rest", 1);
        let begun = Instant::now();
        loop {
            self.mon.settle(|| {
                panics()?;
                Ok(m.pump())
            })?;
            // With full buffers the kernel itself may have something left to do, by its own timers.
            if !m.narrow || m.ctl.appetite == 0 || m.ctl.unacknowledged_at_peer() == 0 {
                return Ok(());
            }
            if begun.elapsed() > WATCHDOG {
                return inc("the kernel did not deliver what was written");
            }
        }
    }
    /// Waits for the next command line and checks it.
    pub fn expect(&self, m: &mut Modem, line: &str) -> R {
        let mut got = None;
        self.wait(m, &format!("the command {line:?} to reach the modem"), |m| {
            got = m.next();
            Ok(got.is_some())
        })?;
        let got = got.unwrap();
        if got != line {
            return bad("wrong command line", format!("expected {line:?}, the modem received {got:?} (all: {:?})", m.lines));
        }
        Ok(())
    }
    pub fn done<T: Send + 'static>(&self, m: &mut Modem, what: &str, c: &Call<T>) -> R<T> {
        self.wait(m, what, |_| Ok(c.done()))?;
        Ok(c.take().unwrap())
    }
    /// A handle and the modem it is connected to.
    pub fn open(&mut self) -> R<(Modem, VaraTnc)> {
        self.open_with(0)
    }
    pub fn open_with(&mut self, rcvbuf: i32) -> R<(Modem, VaraTnc)> {
        self.open_sized(0, rcvbuf)
    }
    /// A handle and a modem whose control connection can be made to take nothing.
    pub fn open_narrow(&mut self) -> R<(Modem, VaraTnc)> {
        let (mut m, t) = self.open_sized(4096, 0)?;
        m.narrow = true;
        if !m.ctl.shrink_peer() {
            return inc("harness: the other end of the control connection was not found");
        }
        Ok((m, t))
    }
    fn open_sized(&mut self, control: i32, data: i32) -> R<(Modem, VaraTnc)> {
        let lo = IpAddr::V4(Ipv4Addr::LOCALHOST);
        let lc = io("listen", listener(lo, 0))?;
        let ld = io("listen", listener(lo, 0))?;
        for (l, size) in [(&lc, control), (&ld, data)] {
            if size > 0 {
                unsafe {
                    libc::setsockopt(
                        l.as_raw_fd(),
                        libc::SOL_SOCKET,
                        libc::SO_RCVBUF,
                        &size as *const _ as *const libc::c_void,
                        std::mem::size_of_val(&size) as u32,
                    )
                };
            }
        }
        let (pc, pd) = (port(&lc), port(&ld));
        let call = Call::spawn(&self.rt, async move {
            let mut b = VaraTnc::builder();
            b.control_port(pc.try_into().unwrap()).data_port(pd.try_into().unwrap());
            b.build().await
        });
        let (mut c, mut d) = (None, None);
        self.mon.wait("the builder to connect", || {
            panics()?;
            if c.is_none() {
                c = lc.accept().ok();
            }
            if d.is_none() {
                d = ld.accept().ok();
            }
            Ok(if c.is_some() && d.is_some() && call.done() { Step::Done } else { Step::Idle })
        })?;
        match call.take().unwrap() {
            Ok(t) => Ok((Modem::new(c.unwrap().0, d.unwrap().0), t)),
            Err(e) => bad("build failed", format!("both ports accept, yet: {e}")),
        }
    }
    /// Lets the loop and everything else end; both connections must then be closed.
    pub fn wind_down(&self, m: &mut Modem) -> R {
        m.ctl.appetite = usize::MAX;
        m.data.appetite = usize::MAX;
        self.wait(m, "both connections to be closed after the handle was dropped", |m| {
            Ok(m.ctl.closed.is_some() && m.data.closed.is_some())
        })?;
        if !m.partial().is_empty() {
            return bad("incomplete line", format!("{:?} without its end", String::from_utf8_lossy(m.partial())));
        }
        self.settle(m)
    }
    /// Sends bytes on the control connection in pieces.
    pub fn send_cut(&mut self, m: &mut Modem, bytes: &[u8], mode: u64) -> R {
        match mode {
            0 => m.ctl.send(bytes),
            1 => {
                for b in bytes {
                    m.ctl.send(&[*b]);
                }
            }
            2 => {
                let mut i = 0;
                while i < bytes.len() {
                    let n = self.rng.range(1, (bytes.len() - i).min(12));
                    m.ctl.send(&bytes[i..i + n]);
                    i += n;
                }
            }
            _ => {
                // Some cuts are seen by the other side as such.
                let mut i = 0;
                let mut pauses = 4;
                while i < bytes.len() {
                    let n = self.rng.range(1, (bytes.len() - i).min(40));
                    m.ctl.send(&bytes[i..i + n]);
                    i += n;
                    if pauses > 0 {
                        pauses -= 1;
                        self.settle(m)?;
                        count("segment boundaries seen by the loop", 1);
                    }
                }
            }
        }
        Ok(())
    }
}

/// A panic anywhere in the process is one of the code under test.
pub fn panics() -> R {
    let p = crate::common::STRAY_PANICS.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = p.first() {
        return bad("panic", x.clone());
    }
    if let Some(x) = crate::INVALID_LOG.lock().unwrap().first() {
        return bad("log is not UTF-8", x.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- names

pub fn callsign(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.chance(1, 4) {
        s.push((b'0' + rng.below(10) as u8) as char);
    }
    for _ in 0..rng.range(1, 2) {
        s.push((b'A' + rng.below(26) as u8) as char);
    }
    s.push((b'0' + rng.below(10) as u8) as char);
    for _ in 0..rng.range(1, 3) {
        s.push((b'A' + rng.below(26) as u8) as char);
    }
    s
}
/// A distinct one for every number below 26^3 * 10 * 26.
pub fn callsign_no(n: usize) -> String {
    let l = |x: usize| (b'A' + (x % 26) as u8) as char;
    format!("{}{}{}{}{}", l(n / 175760 % 26), n / 17576 % 10, l(n / 676), l(n / 26), l(n))
}
