//! C20 connecting, C21 stream bytes, C22 remote disconnect, C23 ending a stream, C24 winding down.

use crate::common::{hash64, Rng};
use crate::ctl::{noise, Cmd};
use crate::world::*;
use crate::Plan;
use plusendi::modem::vara::*;
use plusendi::StationId;
use std::future::poll_fn;
use std::io::IoSlice;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

pub type Stream = VaraStream<'static>;

/// One of two owners of a stream. (Not `tokio::io::split`: its halves make plain writes of
/// vectored ones, so the stream's own would never run.)
pub struct Half(Arc<Mutex<Pin<Box<Stream>>>>);

pub fn split(s: Stream) -> (Half, Half) {
    let s = Arc::new(Mutex::new(Box::pin(s)));
    (Half(s.clone()), Half(s))
}

impl Half {
    pub fn unsplit(self, other: Half) -> Stream {
        drop(other);
        *Pin::into_inner(Arc::try_unwrap(self.0).ok().expect("both halves").into_inner().unwrap())
    }
}

type Ctx<'a, 'b> = &'a mut std::task::Context<'b>;

impl AsyncRead for Half {
    fn poll_read(self: Pin<&mut Self>, cx: Ctx, b: &mut ReadBuf) -> Poll<std::io::Result<()>> {
        self.0.lock().unwrap().as_mut().poll_read(cx, b)
    }
}

impl AsyncWrite for Half {
    fn poll_write(self: Pin<&mut Self>, cx: Ctx, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.0.lock().unwrap().as_mut().poll_write(cx, b)
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: Ctx, b: &[IoSlice]) -> Poll<std::io::Result<usize>> {
        self.0.lock().unwrap().as_mut().poll_write_vectored(cx, b)
    }
    fn is_write_vectored(&self) -> bool {
        self.0.lock().unwrap().is_write_vectored()
    }
    fn poll_flush(self: Pin<&mut Self>, cx: Ctx) -> Poll<std::io::Result<()>> {
        self.0.lock().unwrap().as_mut().poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: Ctx) -> Poll<std::io::Result<()>> {
        self.0.lock().unwrap().as_mut().poll_shutdown(cx)
    }
}
type Res<T> = Result<T, String>;

/// A handle whose streams may travel between tasks. Nothing borrowed from it may be left when it
/// is dropped.
pub struct Tnc(*mut VaraTnc);
unsafe impl Send for Tnc {}

impl Tnc {
    pub fn new(t: VaraTnc) -> Tnc {
        Tnc(Box::into_raw(Box::new(t)))
    }
    pub fn get(&self) -> &VaraTnc {
        unsafe { &*self.0 }
    }
    fn loan(&self) -> &'static mut VaraTnc {
        unsafe { &mut *self.0 }
    }
    pub fn start_connect(&self, w: &W, from: &str, to: &str) -> Call<Res<Stream>> {
        let t = self.loan();
        let (a, b) = (StationId::new(from).unwrap(), StationId::new(to).unwrap());
        Call::spawn(&w.rt, async move { t.connect(a, b).await.map_err(|e| format!("{e:#}")) })
    }
    pub fn start(&self, w: &W, cmd: Cmd) -> Call<Res<()>> {
        let t: &'static VaraTnc = self.loan();
        Call::spawn(&w.rt, async move { cmd.run(t).await })
    }
    pub fn drop(self) -> R {
        let p = self.0;
        gently(move || unsafe { drop(Box::from_raw(p)) })
    }
}

/// Runs something of the code under test on this thread.
pub fn gently<T>(f: impl FnOnce() -> T) -> R<T> {
    crate::common::sut(f).map_err(|p| End::Bad(crate::common::Bad { what: "panic".into(), detail: p }))
}

/// Connects without surprises.
pub fn connect(w: &W, m: &mut Modem, t: &Tnc, a: &str, b: &str) -> R<Stream> {
    let c = t.start_connect(w, a, b);
    w.expect(m, &format!("CONNECT {a} {b}"))?;
    m.send("OK");
    m.send(&format!("CONNECTED {a} {b}"));
    match w.done(m, "the connection to be made", &c)? {
        Ok(s) => Ok(s),
        Err(e) => bad("connect failed", format!("accepted and reported connected, yet: {e}")),
    }
}

/// Waits until the loop has processed everything sent so far on the control connection.
pub fn barrier(w: &W, m: &mut Modem, t: &Tnc) -> R {
    let level = t.get().buffer() % 1_000_000 + 7_000_001;
    m.send(&format!("BUFFER {level}"));
    w.wait(m, "a buffer level to be reported", |m| Ok(m.ctl.out.is_empty() && t.get().buffer() == level))
}

fn no_more_lines(m: &mut Modem, why: &str) -> R {
    m.pump();
    if m.seen < m.lines.len() {
        return bad("unexpected command", format!("{why}: {:?} after {:?}", &m.lines[m.seen..], &m.lines[..m.seen]));
    }
    Ok(())
}

/// After an error the connection state may not be what the scenario says; every report that would
/// say so is sent and processed.
fn say(w: &W, m: &mut Modem, t: &Tnc, line: &str) -> R {
    m.send(line);
    barrier(w, m, t)?;
    w.settle(m)
}

async fn write_some(s: &mut Stream, b: &[u8]) -> std::io::Result<usize> {
    s.write(b).await
}

/// Proves that a stream carries a few bytes either way.
fn usable(w: &W, m: &mut Modem, s: Stream, rng: &mut Rng) -> R<Stream> {
    let n = rng.range(1, 200);
    let (up, down) = (rng.bytes(n), rng.bytes(n));
    let start = m.data.got.len();
    let (u, l) = (up.clone(), down.len());
    m.data.send(&down);
    let c = Call::spawn(&w.rt, async move {
        let mut s = s;
        let mut at = 0;
        while at < u.len() {
            match write_some(&mut s, &u[at..]).await {
                Ok(0) => return Err("wrote nothing".to_string()),
                Ok(k) => at += k,
                Err(e) => return Err(format!("write: {e}")),
            }
        }
        let mut v = vec![0; l];
        match s.read_exact(&mut v).await {
            Ok(_) => Ok((s, v)),
            Err(e) => Err(format!("read: {e}")),
        }
    });
    match w.done(m, "a few bytes through the stream", &c)? {
        Err(e) => bad("new stream unusable", e),
        Ok((s, v)) => {
            if v != down {
                return bad("bytes changed", format!("read {} instead of {}", crate::common::hex(&v), crate::common::hex(&down)));
            }
            w.wait(m, "written bytes to arrive", |m| Ok(m.data.got.len() >= start + n))?;
            if m.data.got[start..] != up[..] {
                return bad("bytes changed", format!("the modem got {} instead of {}", crate::common::hex(&m.data.got[start..]), crate::common::hex(&up)));
            }
            count("streams proved usable", 1);
            Ok(s)
        }
    }
}

// ---------------------------------------------------------------- C20

pub const PLAN20: Plan = Plan {
    stream: "C20",
    quick: 3000,
    thorough: 24_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a history of 1-6 connection attempts on one handle with chosen outcomes, reports and terminations; non-trivial: distinct history of reports and outcomes",
    floors: &[("attempts refused", 200), ("attempts reported disconnected", 200), ("attempts connected", 400), ("attempts abandoned", 100), ("seen pending", 800)],
};

pub fn c20(w: &mut W) -> R {
    let (mut m, t) = w.open()?;
    let t = Tnc::new(t);
    let mut hist = Vec::new();
    let attempts = w.rng.range(1, 6);
    for _ in 0..attempts {
        // What the modem reported before the attempt says nothing about it.
        for _ in 0..w.rng.range(0, 3) {
            let l = match w.rng.below(5) {
                0 => format!("CONNECTED {} {}", callsign(&mut w.rng), callsign(&mut w.rng)),
                1 => "PENDING".into(),
                2 => "CANCELPENDING".into(),
                _ => "DISCONNECTED".to_string(),
            };
            hist.extend(l.as_bytes());
            say(w, &mut m, &t, &l)?;
        }
        let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
        let c = t.start_connect(w, &a, &b);
        w.expect(&mut m, &format!("CONNECT {a} {b}"))?;
        let pending = |w: &W, m: &mut Modem, c: &Call<Res<Stream>>, after: &str| -> R {
            w.settle(m)?;
            if let Some(r) = c.take() {
                return bad("attempt ended early", format!("after {after}: {:?}", r.map(|_| "connected")));
            }
            count("seen pending", 1);
            no_more_lines(m, "while connecting")
        };
        let other = |w: &mut W, m: &mut Modem| -> R {
            for _ in 0..w.rng.range(0, 4) {
                let l = loop {
                    let l = noise(&mut w.rng);
                    if l != "PENDING" && l != "CANCELPENDING" {
                        break l;
                    }
                };
                let mut v = l.into_bytes();
                v.push(b'\r');
                let mode = w.rng.below(4);
                w.send_cut(m, &v, mode)?;
                count("other reports while connecting", 1);
            }
            Ok(())
        };
        if w.rng.chance(1, 2) {
            other(w, &mut m)?;
            pending(w, &mut m, &c, "other reports before the reply")?;
        }
        let outcome = w.rng.below(9);
        hist.push(b'A' + outcome as u8);
        match outcome {
            0 | 1 => {
                m.send("WRONG");
                if w.done(&mut m, "a refused attempt to end", &c)?.is_ok() {
                    return bad("connected although refused", "");
                }
                count("attempts refused", 1);
            }
            2 | 3 | 8 => {
                // Reported disconnected (or something else that is no connection), after or before the reply.
                let l = if outcome == 8 { *w.rng.pick(&["PENDING", "CANCELPENDING"]) } else { "DISCONNECTED" };
                if outcome == 3 && w.rng.chance(1, 2) {
                    let b = if w.rng.chance(1, 2) { format!("{l}\rOK\r") } else { format!("OK\r{l}\r") };
                    let mode = w.rng.below(4);
                    w.send_cut(&mut m, b.as_bytes(), mode)?;
                } else {
                    m.send("OK");
                    if w.rng.chance(1, 2) {
                        pending(w, &mut m, &c, "the reply")?;
                        other(w, &mut m)?;
                        pending(w, &mut m, &c, "other reports")?;
                    }
                    m.send(l);
                }
                if w.done(&mut m, "a failed attempt to end", &c)?.is_ok() {
                    return bad("connected although reported otherwise", l);
                }
                count("attempts reported disconnected", 1);
            }
            4 => {
                // The caller gives up.
                let stage = w.rng.below(3);
                if stage > 0 {
                    m.send("OK");
                }
                if stage > 1 {
                    pending(w, &mut m, &c, "the reply")?;
                }
                c.abort();
                w.settle(&mut m)?;
                if stage == 0 {
                    m.send("OK");
                }
                // `abort` may have come too late to matter.
                if let Some(Ok(s)) = c.take() {
                    std::mem::forget(s);
                }
                if w.rng.chance(1, 2) {
                    say(w, &mut m, &t, &format!("CONNECTED {a} {b}"))?;
                }
                say(w, &mut m, &t, "DISCONNECTED")?;
                count("attempts abandoned", 1);
            }
            _ => {
                // The modem may name the stations otherwise than they were given.
                let connected = if w.rng.chance(1, 4) {
                    count("connected under other names", 1);
                    let (x, y) = (callsign(&mut w.rng), callsign(&mut w.rng));
                    match w.rng.below(4) {
                        0 => format!("CONNECTED {x} {x}"),
                        1 => format!("CONNECTED {b} {a}"),
                        _ => format!("CONNECTED {x} {y}"),
                    }
                } else {
                    format!("CONNECTED {a} {b}")
                };
                match w.rng.below(3) {
                    0 => {
                        m.send("OK");
                        pending(w, &mut m, &c, "the reply")?;
                        other(w, &mut m)?;
                        pending(w, &mut m, &c, "other reports")?;
                        m.send(&connected);
                    }
                    1 => {
                        let b = format!("OK\r{connected}\r");
                        let mode = w.rng.below(4);
                        w.send_cut(&mut m, b.as_bytes(), mode)?;
                    }
                    _ => {
                        m.send(&connected);
                        if w.rng.chance(1, 2) {
                            pending(w, &mut m, &c, "the connection was reported before the reply")?;
                        }
                        m.send("OK");
                    }
                }
                let s = match w.done(&mut m, "a successful attempt to end", &c)? {
                    Ok(s) => s,
                    Err(e) => return bad("connect failed", format!("accepted and reported connected, yet: {e}; history {}", String::from_utf8_lossy(&hist))),
                };
                count("attempts connected", 1);
                let mut rng = w.rng.clone();
                w.rng.next();
                let s = usable(w, &mut m, s, &mut rng)?;
                match rng.below(3) {
                    0 => {
                        say(w, &mut m, &t, "DISCONNECTED")?;
                        gently(|| drop(s))?;
                        w.settle(&mut m)?;
                        no_more_lines(&mut m, "a stream dropped after the remote end disconnected")?;
                    }
                    1 => {
                        gently(|| drop(s))?;
                        w.expect(&mut m, "DISCONNECT")?;
                        m.send("OK");
                        say(w, &mut m, &t, "DISCONNECTED")?;
                    }
                    _ => {
                        let abort = rng.chance(1, 2);
                        let c = Call::spawn(&w.rt, async move { if abort { s.abort().await } else { s.disconnect().await }.map_err(|e| format!("{e:#}")) });
                        w.expect(&mut m, if abort { "ABORT" } else { "DISCONNECT" })?;
                        let early = rng.chance(1, 2);
                        if early {
                            m.send("DISCONNECTED");
                        }
                        m.send("OK");
                        if let Err(e) = w.done(&mut m, "the accepted end of a stream", &c)? {
                            return bad("accepted disconnect failed", e);
                        }
                        if !early || rng.chance(1, 2) {
                            say(w, &mut m, &t, "DISCONNECTED")?;
                        }
                        w.settle(&mut m)?;
                    }
                }
                hist.push(b'0' + rng.below(3) as u8);
            }
        }
        barrier(w, &mut m, &t)?;
        w.settle(&mut m)?;
        no_more_lines(&mut m, "after the attempt")?;
    }
    maximum("attempts on one handle", attempts as u64);
    t.drop()?;
    w.wind_down(&mut m)?;
    no_more_lines(&mut m, "at the end")?;
    distinct(hash64(&hist));
    sample(|| String::from_utf8_lossy(&hist).into_owned());
    Ok(())
}

// ---------------------------------------------------------------- C21

pub const PLAN21: Plan = Plan {
    stream: "C21",
    quick: 1000,
    thorough: 12_000,
    batch: 8,
    parallel: 8,
    rule: "a case transfers random bytes through a stream both ways in random pieces under back-pressure and control traffic; non-trivial: distinct sizes, chunkings and content",
    floors: &[("bytes up", 2_000_000), ("bytes down", 2_000_000), ("writes that had to wait", 20), ("reads given up and repeated", 200), ("vectored writes", 500), ("short vectored writes", 40), ("vectored writes of many pieces", 200), ("ends of stream seen", 50)],
};

#[derive(Default)]
struct Xfer {
    got: Vec<u8>,
    eof: bool,
    waited: u64,
    given_up: u64,
    vectored: u64,
    pieces: u64,
    short: u64,
    short_vectored: u64,
    empty: u64,
    ops: u64,
    written: usize,
    error: Option<String>,
}

async fn reader(mut s: impl AsyncRead + Unpin, want: usize, mut rng: Rng, x: Arc<Mutex<Xfer>>) {
    let max = *rng.pick(&[1usize, 7, 100, 5000, 70_000]);
    loop {
        if x.lock().unwrap().got.len() >= want && want != usize::MAX {
            return;
        }
        let n = rng.range(1, max);
        let style = rng.below(4);
        let r: std::io::Result<Option<Vec<u8>>> = match style {
            0 => {
                let mut v = vec![0xAA; n];
                s.read(&mut v).await.map(|k| {
                    v.truncate(k);
                    Some(v)
                })
            }
            1 => {
                // What is already in the buffer stays, what comes is appended.
                let pre = rng.bytes(rng.clone().range(0, 20));
                let mut mem = vec![0u8; pre.len() + n];
                let mut b = ReadBuf::new(&mut mem);
                b.put_slice(&pre);
                let r = poll_fn(|cx| Pin::new(&mut s).poll_read(cx, &mut b)).await;
                let f = b.filled();
                if f.len() < pre.len() || f[..pre.len()] != pre[..] {
                    x.lock().unwrap().error = Some(format!("a read overwrote what was in the buffer: {} instead of {}", crate::common::hex(f), crate::common::hex(&pre)));
                    return;
                }
                let v = f[pre.len()..].to_vec();
                r.map(|_| Some(v))
            }
            2 => {
                let mut v = bytes::BytesMut::with_capacity(n);
                s.read_buf(&mut v).await.map(|_| Some(v.to_vec()))
            }
            _ => {
                let mut v = vec![0xAA; n];
                match PollLimit::new(s.read(&mut v), 1).await {
                    Some(r) => r.map(|k| {
                        v.truncate(k);
                        Some(v)
                    }),
                    None => {
                        x.lock().unwrap().given_up += 1;
                        tokio::task::yield_now().await;
                        if rng.chance(1, 4) {
                            // Enough of it; wait properly.
                            let mut v = vec![0xAA; n];
                            s.read(&mut v).await.map(|k| {
                                v.truncate(k);
                                Some(v)
                            })
                        } else {
                            Ok(None)
                        }
                    }
                }
            }
        };
        let mut x = x.lock().unwrap();
        x.ops += 1;
        match r {
            Ok(Some(v)) if v.is_empty() => {
                x.eof = true;
                return;
            }
            Ok(Some(v)) => x.got.extend(v),
            Ok(None) => {}
            Err(e) => {
                x.error = Some(format!("read: {e}"));
                return;
            }
        }
    }
}

async fn writer(mut s: impl AsyncWrite + Unpin, data: Vec<u8>, mut rng: Rng, shutdown: bool, x: Arc<Mutex<Xfer>>) {
    let max = *rng.pick(&[1usize, 9, 300, 20_000, 200_000]);
    let max = max.max(data.len() / 3000 + 1);
    let mut at = 0;
    while at < data.len() {
        let n = rng.range(1, max.min(data.len() - at));
        let mut polls = 0u64;
        let style = rng.below(5);
        let r = match style {
            0 | 1 => {
                let chunk = &data[at..at + n];
                poll_fn(|cx| {
                    polls += 1;
                    Pin::new(&mut s).poll_write(cx, chunk)
                })
                .await
            }
            2 => {
                let chunk = &data[at..at + n];
                let mut cuts = vec![0];
                // Sometimes many, more than the system takes in one go included; or the first ones empty.
                let many = match rng.below(12) {
                    0 | 1 => rng.range(6, 40),
                    2 => rng.range(1000, 1100),
                    _ => rng.range(0, 5),
                };
                for _ in 0..many {
                    cuts.push(rng.range(0, n));
                }
                if rng.chance(1, 6) {
                    cuts.extend(std::iter::repeat(0).take(rng.range(1, 70)));
                }
                cuts.push(n);
                cuts.sort();
                let parts: Vec<IoSlice> = cuts.windows(2).map(|c| IoSlice::new(&chunk[c[0]..c[1]])).collect();
                if parts.iter().all(|p| p.is_empty()) {
                    continue;
                }
                {
                    let mut x = x.lock().unwrap();
                    x.vectored += 1;
                    x.pieces += (parts.len() > 16) as u64;
                }
                poll_fn(|cx| {
                    polls += 1;
                    Pin::new(&mut s).poll_write_vectored(cx, &parts)
                })
                .await
            }
            3 => s.write_all(&data[at..at + n]).await.map(|_| n),
            _ => {
                // Given up and repeated: nothing may have been written by a write that did not finish.
                match PollLimit::new(s.write(&data[at..at + n]), 1).await {
                    Some(r) => r,
                    None => {
                        tokio::task::yield_now().await;
                        x.lock().unwrap().waited += 1;
                        s.write(&data[at..at + n]).await
                    }
                }
            }
        };
        let flush = rng.chance(1, 8);
        if rng.chance(1, 20) {
            // Nothing at all, once some got through.
            let none = [IoSlice::new(b""), IoSlice::new(b"")];
            let r = if rng.chance(1, 2) { s.write(b"").await } else { poll_fn(|cx| Pin::new(&mut s).poll_write_vectored(cx, &none[..rng.clone().range(0, 2)])).await };
            match r {
                Ok(0) => x.lock().unwrap().empty += 1,
                r => {
                    x.lock().unwrap().error = Some(format!("a write of nothing: {r:?}"));
                    return;
                }
            }
        }
        if polls > 1 {
            x.lock().unwrap().waited += 1;
        }
        match r {
            Ok(0) => {
                x.lock().unwrap().error = Some("a write took nothing".into());
                return;
            }
            Ok(k) if k > n => {
                x.lock().unwrap().error = Some(format!("a write of {n} bytes took {k}"));
                return;
            }
            Ok(k) => {
                if k < n {
                    let mut x = x.lock().unwrap();
                    x.short += 1;
                    x.short_vectored += (style == 2) as u64;
                }
                at += k
            }
            Err(e) => {
                x.lock().unwrap().error = Some(format!("write: {e}"));
                return;
            }
        }
        if flush {
            if let Err(e) = s.flush().await {
                x.lock().unwrap().error = Some(format!("flush: {e}"));
                return;
            }
        }
        let mut x = x.lock().unwrap();
        x.ops += 1;
        x.written = at;
    }
    if shutdown {
        if let Err(e) = s.shutdown().await {
            x.lock().unwrap().error = Some(format!("shutdown: {e}"));
        }
    }
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = |v: &[u8]| crate::common::hex(&v[i.min(v.len())..(i + 16).min(v.len())]);
    format!("{} bytes instead of {}, first difference at {i}: {} instead of {}", a.len(), b.len(), s(a), s(b))
}

pub fn c21(w: &mut W) -> R {
    let big = w.rng.chance(1, 12);
    // Small buffers at either end: long transfers would take forever through the smallest.
    let rcv = if w.rng.chance(1, 2) { if big { 65_536 } else { 4096 } } else { 0 };
    let (mut m, t) = w.open_with(rcv)?;
    let tight = !big && w.rng.chance(1, 2);
    if tight {
        if !m.data.shrink_peer() {
            return inc("harness: the library's data socket was not found");
        }
        count("small send buffers", 1);
    }
    let t = Tnc::new(t);
    let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
    let s = connect(w, &mut m, &t, &a, &b)?;
    let up_n = if big && w.rng.chance(2, 3) { w.rng.range(500_000, 6_000_000) } else if tight && w.rng.chance(2, 3) { w.rng.range(30_000, 120_000) } else { w.rng.size(60_000) };
    let down_n = if big && w.rng.chance(1, 2) { w.rng.range(200_000, 2_000_000) } else { w.rng.size(60_000) };
    let (up, down) = (w.rng.bytes(up_n), w.rng.bytes(down_n));
    let end = w.rng.below(4); // 0, 1: just enough; 2: the modem closes the data side; 3: the library shuts its side down
    let xr: Arc<Mutex<Xfer>> = Arc::default();
    let xw: Arc<Mutex<Xfer>> = Arc::default();
    let want = if end == 2 { usize::MAX } else { down_n };
    let (rr, rw) = (Rng::new(w.rng.next()), Rng::new(w.rng.next()));
    let shut = end == 3;
    let (sr, sw) = split(s);
    // Both halves come back, so that the stream ends when the scenario says so.
    let (xr2, xw2, up2) = (xr.clone(), xw.clone(), up.clone());
    let together = w.rng.chance(1, 3);
    let (cr, cw): (Call<()>, Call<()>);
    let keep: Arc<Mutex<Vec<Box<dyn std::any::Any + Send>>>> = Arc::default();
    let (k1, k2) = (keep.clone(), keep.clone());
    if together {
        cr = Call::spawn(&w.rt, async move {
            let (mut sr, mut sw) = (sr, sw);
            tokio::join!(reader(&mut sr, want, rr, xr2), writer(&mut sw, up2, rw, shut, xw2));
            k1.lock().unwrap().push(Box::new((sr, sw)));
        });
        cw = Call::spawn(&w.rt, async {});
    } else {
        cr = Call::spawn(&w.rt, async move {
            let mut sr = sr;
            reader(&mut sr, want, rr, xr2).await;
            k1.lock().unwrap().push(Box::new(sr));
        });
        cw = Call::spawn(&w.rt, async move {
            let mut sw = sw;
            writer(&mut sw, up2, rw, shut, xw2).await;
            k2.lock().unwrap().push(Box::new(sw));
        });
    }
    // The modem sends and takes at its own pace.
    let pace = w.rng.below(4);
    m.data.appetite = match pace {
        0 => usize::MAX,
        1 => 0,
        2 => w.rng.range(1, 3000),
        _ => 100_000,
    };
    m.data.appetite = m.data.appetite.max(if pace == 1 { 0 } else { up_n / 2000 });
    let chatter = w.rng.chance(1, 2);
    let burst = *w.rng.pick(&[10usize, 1000, 65_536, 1 << 20]);
    let burst = burst.max(down_n / 2000);
    let mut rng = w.rng.clone();
    let (mut sent, mut closed) = (0, false);
    let mut idle = 0;
    let mut cap = 0;
    w.wait(&mut m, "the transfer to complete", |m| {
        for x in [&xr, &xw] {
            if let Some(e) = &x.lock().unwrap().error {
                return bad("transfer failed", e.clone());
            }
        }
        if sent < down_n && (m.data.out.len() < 1 << 16) {
            let n = rng.range(1, burst.min(down_n - sent));
            m.data.send(&down[sent..sent + n]);
            sent += n;
        }
        if sent == down_n && end == 2 && !closed && m.data.out.is_empty() {
            m.data.shutdown_write();
            closed = true;
        }
        if chatter && cap < 300 && rng.chance(1, 6) {
            cap += 1;
            let l = noise(&mut rng);
            m.send(&l);
            count("control reports during transfers", 1);
        }
        idle += 1;
        // A modem that does not take anything starts to, once the writer is stuck or done.
        if pace == 1 && idle > 60 && m.data.appetite == 0 {
            m.data.appetite = 50_000;
        }
        Ok(cr.done() && cw.done() && m.data.got.len() >= up_n && (!shut || m.data.closed.is_some()))
    })
    .map_err(|e| match e {
        End::Bad(mut b) => {
            let (r, x) = (xr.lock().unwrap(), xw.lock().unwrap());
            b.detail = format!(
                "{}; down {}/{} sent {}, up {}/{} written {}",
                b.detail, r.got.len(), down_n, sent, m.data.got.len(), up_n, x.written
            );
            End::Bad(b)
        }
        e => e,
    })?;
    w.settle(&mut m)?;
    let (x, y) = (xr.lock().unwrap(), xw.lock().unwrap());
    if x.got != down {
        return bad("bytes read differ from bytes sent", first_difference(&x.got, &down));
    }
    if m.data.got != up {
        return bad("bytes written arrive differently", first_difference(&m.data.got, &up));
    }
    if x.eof != (end == 2) {
        return bad("end of stream", format!("seen {}, the modem closed: {}", x.eof, end == 2));
    }
    count("bytes up", up_n as u64);
    count("bytes down", down_n as u64);
    count("writes that had to wait", y.waited);
    count("reads given up and repeated", x.given_up);
    count("vectored writes", y.vectored);
    count("short writes", y.short);
    count("short vectored writes", y.short_vectored);
    count("vectored writes of many pieces", y.pieces);
    count("writes of nothing", y.empty);
    count("operations", x.ops + y.ops);
    if x.eof {
        count("ends of stream seen", 1);
    }
    maximum("bytes in one transfer", up_n.max(down_n) as u64);
    drop((x, y));
    no_more_lines(&mut m, "during a transfer")?;
    // Ending it.
    let k = std::mem::take(&mut *keep.lock().unwrap());
    gently(|| drop(k))?;
    w.expect(&mut m, "DISCONNECT")?;
    m.send("OK");
    m.send("DISCONNECTED");
    w.settle(&mut m)?;
    t.drop()?;
    w.wind_down(&mut m)?;
    if m.data.got != up {
        return bad("bytes after the end", first_difference(&m.data.got, &up));
    }
    distinct(hash64(&up) ^ hash64(&down) ^ pace << 3 ^ end);
    sample(|| format!("{up_n} up, {down_n} down, pace {pace}, end {end}, chatter {chatter}, together {together}"));
    Ok(())
}

// ---------------------------------------------------------------- C22

pub const PLAN22: Plan = Plan {
    stream: "C22",
    quick: 4000,
    thorough: 24_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a connection ended by the remote side or by losing the control connection, with data waiting and readers or writers waiting in one or two tasks; non-trivial: distinct way, data and waiters",
    floors: &[("bytes read after the disconnect", 100_000), ("ends of stream repeated", 3000), ("writes refused", 1500), ("waiting readers woken", 200), ("waiting writers woken", 100), ("control connection lost", 80), ("disconnected before the worker had a turn", 40)],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Loss {
    Report,
    Eof,
    Reset,
    Garbage,
}

fn lose(w: &mut W, m: &mut Modem, how: Loss) -> R {
    match how {
        Loss::Report => {
            let mut b = Vec::new();
            if w.rng.chance(1, 4) {
                b.extend(noise(&mut w.rng).as_bytes());
                b.push(b'\r');
            }
            b.extend(b"DISCONNECTED\r");
            let mode = w.rng.below(4);
            w.send_cut(m, &b, mode)?;
        }
        Loss::Eof => m.ctl.shutdown_write(),
        Loss::Reset => m.ctl.reset(),
        Loss::Garbage => m.ctl.send(b"NONSENSE\r"),
    }
    if how != Loss::Report {
        count("control connection lost", 1);
    }
    Ok(())
}

/// Every way of writing is refused, every read says the end; repeatedly, in any order.
async fn after<S: AsyncRead + AsyncWrite + Unpin>(s: &mut S, mut rng: Rng) -> Res<(u64, u64)> {
    let (mut ends, mut refused) = (0, 0);
    for _ in 0..rng.range(4, 16) {
        let kind = rng.below(7);
        let r: Option<std::io::Result<()>> = match kind {
            0 | 1 => {
                let mut v = vec![0; rng.range(1, 100)];
                let k = s.read(&mut v).await.map_err(|e| format!("read after the end: {e}"))?;
                if k != 0 {
                    return Err(format!("{k} bytes read after the end of the stream"));
                }
                None
            }
            2 => {
                let mut v = Vec::new();
                s.read_to_end(&mut v).await.map_err(|e| format!("read after the end: {e}"))?;
                if !v.is_empty() {
                    return Err(format!("{} bytes read after the end of the stream", v.len()));
                }
                None
            }
            3 => Some(s.write(b"late").await.map(|_| ())),
            4 => {
                let b = [IoSlice::new(b"la"), IoSlice::new(b"te")];
                Some(poll_fn(|cx| Pin::new(&mut *s).poll_write_vectored(cx, &b)).await.map(|_| ()))
            }
            5 => Some(s.flush().await),
            _ => Some(s.shutdown().await),
        };
        match r {
            None => ends += 1,
            Some(Ok(())) => return Err(format!("{} succeeded after the disconnect", ["write", "vectored write", "flush", "shutdown"][kind as usize - 3])),
            Some(Err(e)) if e.kind() == std::io::ErrorKind::ConnectionAborted => refused += 1,
            Some(Err(e)) => return Err(format!("{} failed with {:?} instead of ConnectionAborted", ["write", "vectored write", "flush", "shutdown"][kind as usize - 3], e.kind())),
        }
    }
    Ok((ends, refused))
}

/// The task that connected keeps its worker busy while the remote end disconnects: nothing that was
/// left to that worker has had a turn by then.
fn c22_busy(w: &mut W, m: &mut Modem, t: &Tnc, how: Loss, n: usize) -> R {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
    let data = w.rng.bytes(n);
    let (made, go) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    let (made2, go2) = (made.clone(), go.clone());
    let loan = t.loan();
    let (from, to) = (StationId::new(a.clone()).unwrap(), StationId::new(b.clone()).unwrap());
    let mut rng = Rng::new(w.rng.next());
    let c = Call::spawn(&w.rt, async move {
        let mut s = loan.connect(from, to).await.map_err(|e| format!("connect: {e:#}"))?;
        made2.store(true, SeqCst);
        let begun = std::time::Instant::now();
        while !go2.load(SeqCst) {
            std::thread::sleep(std::time::Duration::from_micros(200));
            if begun.elapsed().as_secs() > 20 {
                break;
            }
        }
        let mut got = Vec::new();
        loop {
            let mut v = vec![0; rng.range(1, 5000)];
            match s.read(&mut v).await {
                Ok(0) => break,
                Ok(k) => got.extend(&v[..k]),
                Err(e) => return Err(format!("read after the disconnect: {e}")),
            }
        }
        let r = after(&mut s, rng).await?;
        drop(s);
        Ok((got, r))
    });
    w.expect(m, &format!("CONNECT {a} {b}"))?;
    m.send("OK");
    m.send(&format!("CONNECTED {a} {b}"));
    let nudge = |w: &W| drop(w.rt.handle.spawn(async {}));
    let mut turns = 0;
    w.wait(m, "the connection to be made", |_| Ok(made.load(SeqCst)))?;
    m.data.send(&data);
    w.wait(m, "harness: data to be delivered", |m| Ok(m.data.delivered()))?;
    let level = t.get().buffer() % 1_000_000 + 7_000_001;
    if how == Loss::Report {
        // At once: whether the loop sees cuts cannot be waited for here.
        m.send("DISCONNECTED");
        m.send(&format!("BUFFER {level}"));
    } else {
        lose(w, m, how)?;
    }
    // Until the other worker has taken it in; the input may be left to nobody unless it is woken.
    let begun = std::time::Instant::now();
    let mut since = None;
    while begun.elapsed().as_secs() < 4 {
        m.pump();
        turns += 1;
        if turns % 4 == 0 {
            nudge(w);
        }
        let taken = match how {
            Loss::Report => t.get().buffer() == level,
            _ => m.ctl.s.is_none() || m.ctl.closed.is_some(),
        };
        if taken {
            let s = since.get_or_insert_with(std::time::Instant::now);
            if s.elapsed().as_millis() >= 5 {
                count("disconnected before the worker had a turn", 1);
                break;
            }
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    }
    go.store(true, SeqCst);
    match w.done(m, "reads and writes after the disconnect to end", &c)? {
        Err(e) => bad("after a disconnect", format!("{e} ({how:?}, the worker was busy)")),
        Ok((got, (e, r))) => {
            if got != data {
                return bad("data from before the disconnect", first_difference(&got, &data));
            }
            count("bytes read after the disconnect", n as u64);
            count("ends of stream repeated", e);
            count("writes refused", r);
            w.settle(m)?;
            no_more_lines(m, "after the remote end disconnected")
        }
    }
}

pub fn c22(w: &mut W) -> R {
    let blocked_writer = w.rng.chance(1, 4);
    let (mut m, t) = w.open_with(if blocked_writer { 4096 } else { 0 })?;
    let t = Tnc::new(t);
    let mut hist = vec![];
    let rounds = w.rng.range(1, 3);
    for round in 0..rounds {
        let last = round + 1 == rounds;
        let how = if last && w.rng.chance(1, 3) { *w.rng.pick(&[Loss::Eof, Loss::Reset, Loss::Garbage]) } else { Loss::Report };
        let n = if w.rng.chance(1, 4) { 0 } else { w.rng.size(30_000) };
        let busy = matches!(w.rt.flavour, "two workers" | "four workers") && !(blocked_writer && last) && w.rng.chance(1, 12);
        if busy {
            c22_busy(w, &mut m, &t, how, n)?;
            hist.push(0xB0 + how as u8);
            continue;
        }
        let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
        let s = connect(w, &mut m, &t, &a, &b)?;
        let data = w.rng.bytes(n);
        let scene = if blocked_writer && last { 3 } else { w.rng.below(3) };
        hist.push(scene as u8 * 16 + how as u8);
        hist.extend((n as u32).to_le_bytes());
        let rng = Rng::new(w.rng.next());
        let read_max = *w.rng.pick(&[1usize, 50, 1000, 40_000]);
        let read_max = read_max.max(n / 500);
        match scene {
            // Nobody waits: data and the report arrive, then everything is read.
            0 => {
                let first = w.rng.range(0, n);
                m.data.send(&data[..first]);
                m.data.send(&data[first..]);
                w.wait(&mut m, "harness: data to be delivered", |m| Ok(m.data.delivered()))?;
                if w.rng.chance(2, 3) {
                    w.settle(&mut m)?;
                }
                lose(w, &mut m, how)?;
                w.settle(&mut m)?;
                let c = Call::spawn(&w.rt, async move {
                    let (mut s, mut rng) = (s, rng);
                    let mut got = Vec::new();
                    // Writing is refused at once, reading only once everything was read.
                    if rng.chance(1, 2) {
                        match s.write(b"late").await {
                            Err(e) if e.kind() == std::io::ErrorKind::ConnectionAborted => {}
                            r => return Err(format!("a write after the disconnect: {r:?}")),
                        }
                    }
                    loop {
                        let mut v = vec![0; rng.range(1, read_max)];
                        match s.read(&mut v).await {
                            Ok(0) => break,
                            Ok(k) => got.extend(&v[..k]),
                            Err(e) => return Err(format!("read after the disconnect: {e}")),
                        }
                    }
                    let r = after(&mut s, rng).await?;
                    Ok((s, got, r))
                });
                match w.done(&mut m, "reads and writes after the disconnect to end", &c)? {
                    Err(e) => return bad("after a disconnect", format!("{e} ({how:?})")),
                    Ok((s, got, (e, r))) => {
                        if got != data {
                            return bad("data from before the disconnect", first_difference(&got, &data));
                        }
                        count("bytes read after the disconnect", n as u64);
                        count("ends of stream repeated", e);
                        count("writes refused", r);
                        gently(|| drop(s))?;
                    }
                }
            }
            // A reader waits, a second task may be writing or waiting too.
            1 | 2 => {
                let (sr, sw) = split(s);
                let got: Arc<Mutex<Vec<u8>>> = Arc::default();
                let g = got.clone();
                let c = Call::spawn(&w.rt, async move {
                    let (mut sr, mut rng) = (sr, rng);
                    loop {
                        let mut v = vec![0; rng.range(1, read_max)];
                        match sr.read(&mut v).await {
                            Ok(0) => return Ok(sr),
                            Ok(k) => g.lock().unwrap().extend(&v[..k]),
                            Err(e) => return Err(format!("a waiting read failed: {e}")),
                        }
                    }
                });
                w.settle(&mut m)?;
                let (goal, mut writes) = (m.data.got.len(), 0);
                let mut sw = sw;
                if scene == 2 {
                    // A write of another task while the reader waits.
                    let k = w.rng.range(1, 300);
                    writes = k;
                    let c2 = Call::spawn(&w.rt, async move {
                        let r = sw.write_all(&vec![7; k]).await;
                        let f = sw.flush().await;
                        (sw, r.and(f))
                    });
                    let (s2, r) = w.done(&mut m, "a write on a live connection", &c2)?;
                    if let Err(e) = r {
                        return bad("write on a live connection failed", e.to_string());
                    }
                    sw = s2;
                    w.wait(&mut m, "the bytes to arrive", |m| Ok(m.data.got.len() >= goal + k))?;
                    w.settle(&mut m)?;
                    count("writes by another task while a reader waits", 1);
                }
                let mut at = 0;
                while at < n {
                    let k = w.rng.range(1, n - at);
                    m.data.send(&data[at..at + k]);
                    at += k;
                    if w.rng.chance(1, 3) {
                        w.settle(&mut m)?;
                    }
                }
                w.wait(&mut m, "harness: data to be delivered", |m| Ok(m.data.delivered()))?;
                if w.rng.chance(1, 2) {
                    w.settle(&mut m)?;
                }
                if c.done() {
                    return bad("end of stream while connected", "");
                }
                lose(w, &mut m, how)?;
                let sr = match w.done(&mut m, "a waiting reader to be woken by the disconnect", &c)? {
                    Ok(s) => s,
                    Err(e) => return bad("after a disconnect", e),
                };
                count("waiting readers woken", 1);
                let got = got.lock().unwrap().clone();
                if got != data {
                    return bad("data from before the disconnect", first_difference(&got, &data));
                }
                count("bytes read after the disconnect", n as u64);
                let mut s = sr.unsplit(sw);
                let rng = Rng::new(w.rng.next());
                let c = Call::spawn(&w.rt, async move { after(&mut s, rng).await.map(|x| (s, x)) });
                match w.done(&mut m, "operations after the disconnect to end", &c)? {
                    Err(e) => return bad("after a disconnect", format!("{e} ({how:?})")),
                    Ok((s, (e, r))) => {
                        count("ends of stream repeated", e);
                        count("writes refused", r);
                        gently(|| drop(s))?;
                    }
                }
                if m.data.got.len() != goal + writes {
                    return bad("bytes written after the disconnect", "");
                }
            }
            // A writer waits for the modem to take more, perhaps a reader waits too.
            _ => {
                m.data.appetite = 0;
                let with_reader = w.rng.chance(1, 2);
                let reader_first = w.rng.chance(1, 2);
                let (sr, sw) = split(s);
                let start_reader = |w: &W, sr| {
                    Call::spawn(&w.rt, async move {
                        let mut sr: Half = sr;
                        let mut v = vec![0; 100];
                        let r = sr.read(&mut v).await;
                        (sr, r)
                    })
                };
                let (mut cr, mut idle) = (None, None);
                if with_reader && reader_first {
                    cr = Some(start_reader(w, sr));
                    w.settle(&mut m)?;
                } else {
                    idle = Some(sr);
                }
                let vectored = w.rng.chance(1, 3);
                let cw = Call::spawn(&w.rt, async move {
                    let mut sw = sw;
                    let chunk = vec![9; 100_000];
                    let b = [IoSlice::new(&chunk), IoSlice::new(b"xyz")];
                    loop {
                        let r = if vectored { poll_fn(|cx| Pin::new(&mut sw).poll_write_vectored(cx, &b)).await } else { sw.write(&chunk).await };
                        match r {
                            Ok(0) => return (sw, "took nothing".to_string()),
                            Ok(_) => {}
                            Err(e) => return (sw, format!("{:?}", e.kind())),
                        }
                    }
                });
                w.settle(&mut m)?;
                if with_reader && !reader_first {
                    cr = Some(start_reader(w, idle.take().unwrap()));
                    w.settle(&mut m)?;
                }
                if cw.done() {
                    return inc("harness: the writer did not block");
                }
                lose(w, &mut m, how)?;
                let (sw, r) = w.done(&mut m, "a waiting writer to be woken by the disconnect", &cw)?;
                if r != "ConnectionAborted" {
                    return bad("after a disconnect", format!("a waiting write ended with {r}"));
                }
                count("waiting writers woken", 1);
                let sr = match (cr, idle) {
                    (Some(c), _) => {
                        let (sr, r) = w.done(&mut m, "a waiting reader to be woken by the disconnect (a writer waited too)", &c)?;
                        match r {
                            Ok(0) => {}
                            r => return bad("after a disconnect", format!("a waiting read ended with {r:?}")),
                        }
                        count("waiting readers woken", 1);
                        sr
                    }
                    (None, s) => s.unwrap(),
                };
                let mut s = sr.unsplit(sw);
                let rng = Rng::new(w.rng.next());
                let c = Call::spawn(&w.rt, async move { after(&mut s, rng).await.map(|x| (s, x)) });
                match w.done(&mut m, "operations after the disconnect to end", &c)? {
                    Err(e) => return bad("after a disconnect", format!("{e} ({how:?})")),
                    Ok((s, (e, r))) => {
                        count("ends of stream repeated", e);
                        count("writes refused", r);
                        gently(|| drop(s))?;
                    }
                }
            }
        }
        w.settle(&mut m)?;
        no_more_lines(&mut m, "after the remote end disconnected")?;
    }
    t.drop()?;
    if m.ctl.s.is_none() {
        m.ctl.closed = Some(Closed::Reset);
    }
    w.wind_down(&mut m)?;
    no_more_lines(&mut m, "after the remote end disconnected")?;
    distinct(hash64(&hist));
    sample(|| format!("{rounds} rounds, {}", crate::common::hex(&hist)));
    Ok(())
}

// ---------------------------------------------------------------- C23

pub const PLAN23: Plan = Plan {
    stream: "C23",
    quick: 4000,
    thorough: 28_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a sequence of connections on one handle, each ended in one of the possible ways and followed at once by further use; non-trivial: distinct sequence of ways and reactions",
    floors: &[("streams dropped", 400), ("streams disconnected", 200), ("streams aborted", 200), ("streams that died with their task", 100), ("reconnects right after a drop", 100), ("ends reported while the next attempt waits", 40), ("handles dropped right after the stream", 100), ("streams ended while the modem took nothing", 60), ("ends given up", 100)],
};

/// Fills the way to a modem that takes nothing until the next command has to wait; gives the calls.
fn clog(w: &mut W, m: &mut Modem, t: &Tnc) -> R<Vec<(String, Call<Res<()>>)>> {
    w.settle(m)?;
    m.ctl.appetite = 0;
    let first = w.rng.range(0, 50_000);
    let (mut v, mut all) = (vec![], 0);
    while v.len() < 1000 {
        for _ in 0..120 {
            let mut ids = vec![callsign_no(first + v.len())];
            while ids.len() < 6 {
                ids.push(callsign(&mut w.rng));
            }
            let cmd = Cmd::Call(ids);
            all += cmd.line().len() + 1;
            v.push((cmd.line(), t.start(w, cmd)));
        }
        w.settle(m)?;
        let there = m.ctl.waiting() + m.ctl.held_at_peer();
        if there + 500 < all {
            maximum("bytes in full buffers", there as u64);
            return Ok(v);
        }
    }
    inc("harness: the buffers did not fill")
}

/// Takes lines again, answering each OK, until all is at rest; gives those not among `known`.
fn unclog(w: &mut W, m: &mut Modem, known: &[(String, Call<Res<()>>)]) -> R<Vec<String>> {
    m.ctl.appetite = *w.rng.pick(&[50, 300, 1000, usize::MAX]);
    let mut left: std::collections::HashSet<&str> = known.iter().map(|(l, _)| l.as_str()).collect();
    let mut other = vec![];
    loop {
        w.settle(m)?;
        let Some(l) = m.next() else { break };
        let mut l = Some(l);
        while let Some(x) = l {
            if !left.remove(x.as_str()) {
                other.push(x);
            }
            m.send("OK");
            l = m.next();
        }
    }
    m.ctl.appetite = usize::MAX;
    Ok(other)
}

pub fn c23(w: &mut W) -> R {
    let narrow = w.rng.chance(1, 40);
    let (mut m, t) = if narrow { w.open_narrow()? } else { w.open()? };
    let t = Tnc::new(t);
    let mut hist = vec![];
    let rounds = w.rng.range(1, 4);
    // A connection attempt that was started before the DISCONNECT of the one before was seen.
    let mut early: Option<(Call<Res<Stream>>, String, String)> = None;
    for round in 0..rounds {
        let last = round + 1 == rounds;
        let s = match early.take() {
            Some((c, a, b)) => {
                w.expect(&mut m, &format!("CONNECT {a} {b}"))?;
                m.send("OK");
                w.settle(&mut m)?;
                m.send(&format!("CONNECTED {a} {b}"));
                match w.done(&mut m, "the connection to be made", &c)? {
                    Ok(s) => s,
                    Err(e) => return bad("connect failed", format!("accepted and reported connected, yet: {e}")),
                }
            }
            None => {
                let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
                connect(w, &mut m, &t, &a, &b)?
            }
        };
        let mut s = s;
        if w.rng.chance(1, 2) {
            let mut rng = Rng::new(w.rng.next());
            s = usable(w, &mut m, s, &mut rng)?;
        }
        if w.rng.chance(1, 3) {
            let l = loop {
                let l = noise(&mut w.rng);
                if w.rng.chance(1, 4) || !l.contains("PENDING") {
                    break l;
                }
            };
            say(w, &mut m, &t, &l)?;
        }
        no_more_lines(&mut m, "while connected")?;
        if narrow && w.rng.chance(2, 3) {
            // Ended while the modem takes nothing and the way to it is full.
            let calls = clog(w, &mut m, &t)?;
            let how = w.rng.below(5);
            hist.push(0x80 | how as u8);
            let what = ["dropped", "disconnected", "aborted", "disconnect abandoned", "abort abandoned"][how as usize];
            let ended = match how {
                0 => {
                    gently(|| drop(s))?;
                    None
                }
                1 | 2 => Some(Call::spawn(&w.rt, async move { Some(if how == 1 { s.disconnect().await } else { s.abort().await }.map_err(|e| format!("{e:#}"))) })),
                _ => Some(Call::spawn(&w.rt, async move {
                    PollLimit::new(async move { if how == 3 { s.disconnect().await } else { s.abort().await }.map_err(|e| format!("{e:#}")) }, 1).await
                })),
            };
            w.settle(&mut m)?;
            let other = unclog(w, &mut m, &calls)?;
            let mut result = None;
            if let Some(c) = ended {
                result = w.done(&mut m, "the end of a stream", &c)?;
                if let Some(Err(e)) = &result {
                    return bad("accepted disconnect failed", format!("{what} with the way to the modem full: {e}"));
                }
            }
            for (l, c) in &calls {
                if let Err(e) = w.done(&mut m, "a command to complete", c)? {
                    return bad("accepted command failed", format!("{l}: {e}"));
                }
            }
            let d = other.iter().filter(|l| *l == "DISCONNECT").count();
            let a = other.iter().filter(|l| *l == "ABORT").count();
            let good = d + a == other.len()
                && match (how, &result) {
                    (0, _) | (1, _) | (3, Some(_)) => (d, a) == (1, 0),
                    (2, _) | (4, Some(_)) => (d, a) == (0, 1),
                    // Given up: like a drop, unless the command was already under way.
                    (3, None) => a == 0 && (1..=2).contains(&d),
                    _ => d <= 1 && a <= 1 && d + a >= 1,
                };
            if !good {
                return bad("a stream's end is not told, or not once", format!("{what} with the way to the modem full: the modem was sent {other:?} besides the other commands"));
            }
            count("streams ended while the modem took nothing", 1);
            say(w, &mut m, &t, "DISCONNECTED")?;
            no_more_lines(&mut m, "after the end of a stream")?;
            continue;
        }
        let way = w.rng.below(9);
        hist.push(way as u8);
        match way {
            // Given up in the middle of a disconnect or abort: like a drop, unless the command was under way.
            8 => {
                let abort = w.rng.chance(1, 2);
                let polls = w.rng.range(1, 2);
                let c = Call::spawn(&w.rt, async move {
                    PollLimit::new(async move { if abort { s.abort().await } else { s.disconnect().await }.map_err(|e| format!("{e:#}")) }, polls).await
                });
                if polls == 1 {
                    if w.done(&mut m, "a disconnect to be given up", &c)?.is_some() {
                        return bad("ended before the reply", "");
                    }
                } else {
                    w.settle(&mut m)?;
                    if c.done() {
                        return bad("ended before the reply", "");
                    }
                    c.abort();
                }
                let (mut d, mut a) = (0, 0);
                loop {
                    w.settle(&mut m)?;
                    match m.next().as_deref() {
                        None => break,
                        Some("DISCONNECT") => d += 1,
                        Some("ABORT") => a += 1,
                        Some(l) => return bad("unexpected command", l),
                    }
                    m.send("OK");
                }
                let good = if abort { d <= 1 && a <= 1 && d + a >= 1 } else { a == 0 && (1..=2).contains(&d) };
                if !good {
                    return bad("a stream's end is not told, or not once", format!("{} given up after {polls} polls: {d} x DISCONNECT, {a} x ABORT", if abort { "abort" } else { "disconnect" }));
                }
                say(w, &mut m, &t, "DISCONNECTED")?;
                count("ends given up", 1);
            }
            // Dropped, here or with the task that owns it; the next step follows at once.
            0..=3 => {
                if way == 3 {
                    let (tx, rx) = std::sync::mpsc::channel();
                    let c = Call::spawn(&w.rt, async move {
                        let mut s = s;
                        let _ = tx.send(());
                        let mut v = [0; 10];
                        let _ = s.read(&mut v).await;
                    });
                    w.wait(&mut m, "the task to start", |_| Ok(rx.try_recv().is_ok()))?;
                    c.abort();
                    count("streams that died with their task", 1);
                    w.expect(&mut m, "DISCONNECT")?;
                    m.send("OK");
                    say(w, &mut m, &t, "DISCONNECTED")?;
                    continue;
                }
                count("streams dropped", 1);
                let next = w.rng.below(3);
                hist.push(next as u8);
                if next == 0 && last {
                    // The handle goes too.
                    let (tp, sp) = (t, s);
                    let inside = w.rng.chance(1, 2);
                    if inside {
                        let c = Call::spawn(&w.rt, async move {
                            drop(sp);
                            tp.drop().is_ok()
                        });
                        w.done(&mut m, "the handle to be dropped", &c)?;
                    } else {
                        gently(|| drop(sp))?;
                        tp.drop()?;
                    }
                    count("handles dropped right after the stream", 1);
                    w.expect(&mut m, "DISCONNECT")?;
                    w.settle(&mut m)?;
                    if m.ctl.closed.is_some() {
                        return bad("closed before the reply", "the DISCONNECT of a dropped stream was not answered yet");
                    }
                    if w.rng.chance(1, 2) {
                        m.send("DISCONNECTED");
                        w.settle(&mut m)?;
                    }
                    m.send("OK");
                    w.wind_down(&mut m)?;
                    no_more_lines(&mut m, "after the end")?;
                    distinct(hash64(&hist));
                    return Ok(());
                } else if next == 1 && !last {
                    // The next attempt starts while the DISCONNECT is on its way.
                    let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
                    let inside = w.rng.chance(1, 2);
                    let c = if inside {
                        let tt = Tnc(t.0);
                        let (a2, b2) = (a.clone(), b.clone());
                        Call::spawn(&w.rt, async move {
                            drop(s);
                            let tt = tt;
                            let r = tt.loan().connect(StationId::new(a2).unwrap(), StationId::new(b2).unwrap()).await;
                            r.map_err(|e| format!("{e:#}"))
                        })
                    } else {
                        gently(|| drop(s))?;
                        t.start_connect(w, &a, &b)
                    };
                    w.expect(&mut m, "DISCONNECT")?;
                    // The modem answers in order, and may be slow; the end may be reported before the answer.
                    if w.rng.chance(1, 2) {
                        w.settle(&mut m)?;
                    }
                    if w.rng.chance(1, 2) {
                        m.send("DISCONNECTED");
                        if w.rng.chance(1, 2) {
                            w.settle(&mut m)?;
                        }
                        count("ends reported while the next attempt waits", 1);
                    }
                    m.send("OK");
                    count("reconnects right after a drop", 1);
                    early = Some((c, a, b));
                    continue;
                } else if next == 2 && w.rng.chance(1, 2) {
                    // Other commands right away.
                    gently(|| drop(s))?;
                    let id = callsign(&mut w.rng);
                    let c = t.start(w, Cmd::Call(vec![id.clone()]));
                    let mut have = Vec::new();
                    w.wait(&mut m, "DISCONNECT and a later command to arrive", |m| {
                        while let Some(l) = m.next() {
                            have.push(l);
                        }
                        Ok(have.len() >= 2)
                    })?;
                    have.sort();
                    if have != ["DISCONNECT".to_string(), format!("MYCALL {id}")] {
                        return bad("wrong commands after a drop", format!("{have:?}"));
                    }
                    m.send("OK");
                    m.send("OK");
                    if let Err(e) = w.done(&mut m, "the later command to complete", &c)? {
                        return bad("accepted command failed", e);
                    }
                    say(w, &mut m, &t, "DISCONNECTED")?;
                } else {
                    gently(|| drop(s))?;
                    w.expect(&mut m, "DISCONNECT")?;
                    let r = *w.rng.pick(&["OK", "WRONG"]);
                    m.send(r);
                    say(w, &mut m, &t, "DISCONNECTED")?;
                }
            }
            // Explicitly, with the modem agreeing.
            4 | 5 => {
                let abort = way == 5;
                let c = Call::spawn(&w.rt, async move { if abort { s.abort().await } else { s.disconnect().await }.map_err(|e| format!("{e:#}")) });
                w.expect(&mut m, if abort { "ABORT" } else { "DISCONNECT" })?;
                w.settle(&mut m)?;
                if c.done() {
                    return bad("ended before the reply", "");
                }
                no_more_lines(&mut m, "before the reply to the end")?;
                let early = w.rng.chance(1, 3);
                if early {
                    say(w, &mut m, &t, "DISCONNECTED")?;
                }
                m.send("OK");
                if let Err(e) = w.done(&mut m, "the accepted end of a stream", &c)? {
                    return bad("accepted disconnect failed", e);
                }
                w.settle(&mut m)?;
                no_more_lines(&mut m, "after an accepted disconnect or abort")?;
                if !early {
                    say(w, &mut m, &t, "DISCONNECTED")?;
                }
                count(if abort { "streams aborted" } else { "streams disconnected" }, 1);
            }
            // The remote end was first.
            6 => {
                say(w, &mut m, &t, "DISCONNECTED")?;
                match w.rng.below(2) {
                    0 => gently(|| drop(s))?,
                    _ => {
                        let c = Call::spawn(&w.rt, async move {
                            let mut s = s;
                            let mut v = vec![0; 10];
                            let r = s.read(&mut v).await;
                            drop(s);
                            r.map_err(|e| e.to_string())
                        });
                        match w.done(&mut m, "a read after the disconnect", &c)? {
                            Ok(0) => {}
                            r => return bad("after a disconnect", format!("{r:?}")),
                        }
                    }
                }
                count("streams dropped after a remote disconnect", 1);
            }
            // Refused: at least the command itself, and the stream is gone.
            _ => {
                let abort = w.rng.chance(1, 2);
                let c = Call::spawn(&w.rt, async move { if abort { s.abort().await } else { s.disconnect().await }.map_err(|e| format!("{e:#}")) });
                w.expect(&mut m, if abort { "ABORT" } else { "DISCONNECT" })?;
                m.send("WRONG");
                if w.done(&mut m, "the refused end of a stream", &c)?.is_ok() {
                    return bad("refused disconnect succeeded", "");
                }
                w.settle(&mut m)?;
                // Whether the stream then tries once more to disconnect is not specified.
                while let Some(l) = m.next() {
                    if l != "DISCONNECT" {
                        return bad("unexpected command", l);
                    }
                    m.send("OK");
                    w.settle(&mut m)?;
                }
                say(w, &mut m, &t, "DISCONNECTED")?;
                count("ends refused", 1);
            }
        }
        w.settle(&mut m)?;
        no_more_lines(&mut m, "after the end of a stream")?;
        // The handle is still good.
        if w.rng.chance(1, 3) {
            let id = callsign(&mut w.rng);
            let c = t.start(w, Cmd::Call(vec![id.clone()]));
            w.expect(&mut m, &format!("MYCALL {id}"))?;
            m.send("OK");
            if let Err(e) = w.done(&mut m, "a command after the end of a stream", &c)? {
                return bad("accepted command failed", e);
            }
        }
    }
    if let Some((c, a, b)) = early.take() {
        let _ = (c, a, b);
        return inc("harness: unfinished attempt");
    }
    t.drop()?;
    w.wind_down(&mut m)?;
    no_more_lines(&mut m, "at the end")?;
    distinct(hash64(&hist));
    sample(|| crate::common::hex(&hist));
    Ok(())
}

// ---------------------------------------------------------------- C24

pub const PLAN24: Plan = Plan {
    stream: "C24",
    quick: 2000,
    thorough: 28_000,
    batch: 16,
    parallel: 8,
    rule: "a case brings a handle into some state, watches the processor use there, drops it with commands outstanding and watches both connections; non-trivial: distinct state, outstanding commands and replies",
    floors: &[("rests checked", 2500), ("drops with replies outstanding", 200), ("commands handed over in the last moment", 100), ("replies after the drop", 400), ("modem lost after the drop", 60), ("drops while the modem took nothing", 20)],
};

fn rest(w: &W, m: &mut Modem) -> R {
    w.settle(m)?;
    // And stays there.
    let base = w.mon.scan();
    std::thread::sleep(std::time::Duration::from_millis(w.case % 3 * 4));
    w.settle(m)?;
    let now = w.mon.scan();
    maximum("processor time at rest (us)", now.used_since(&base) / 1000);
    count("rests checked", 1);
    Ok(())
}

/// Dropped while the modem takes nothing and the way to it is full.
fn c24_clogged(w: &mut W) -> R {
    let (mut m, t) = w.open_narrow()?;
    let t = Tnc::new(t);
    let calls = clog(w, &mut m, &t)?;
    // Everything in the buffers, the rest of what is being written, and one command in the queue.
    let there = m.ctl.waiting() + m.ctl.held_at_peer();
    for (_, c) in &calls {
        c.abort();
    }
    rest(w, &mut m)?;
    t.drop()?;
    rest(w, &mut m)?;
    if m.ctl.closed.is_some() {
        return bad("closed before all replies", "the modem had taken nothing yet");
    }
    let before = m.lines.len();
    let other = unclog(w, &mut m, &calls)?;
    if !other.is_empty() {
        return bad("unexpected command", format!("{other:?}"));
    }
    let got: Vec<&String> = m.lines[before..].iter().collect();
    let (mut bytes, mut least) = (0, 0);
    for l in &got {
        if bytes >= there {
            break;
        }
        bytes += l.len() + 1;
        least += 1;
    }
    if bytes < there || got.len() < least + 1 {
        return bad("a command handed over is lost", format!("{there} bytes had been written when the callers and the handle went, and another command was queued; the modem then got {} lines, {} were on their way", got.len(), least + 1));
    }
    count("drops while the modem took nothing", 1);
    w.wind_down(&mut m)?;
    rest(w, &mut m)?;
    no_more_lines(&mut m, "at the end")
}

pub fn c24(w: &mut W) -> R {
    if w.rng.chance(1, 40) {
        return c24_clogged(w);
    }
    let (mut m, t) = w.open()?;
    let t = Tnc::new(t);
    let mut hist = vec![];
    rest(w, &mut m)?;
    let mut ended_owed = 0;
    // Some history: connections made and ended in various ways leave nothing running behind.
    for _ in 0..w.rng.range(0, 2) {
        let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
        let s = connect(w, &mut m, &t, &a, &b)?;
        rest(w, &mut m)?;
        if w.rng.chance(1, 2) {
            say(w, &mut m, &t, "DISCONNECTED")?;
            rest(w, &mut m)?;
            gently(|| drop(s))?;
            hist.push(1);
        } else {
            let abort = match w.rng.below(3) {
                0 => Some(w.rng.chance(1, 2)),
                _ => None,
            };
            let c = match abort {
                None => {
                    gently(|| drop(s))?;
                    None
                }
                Some(true) => Some(Call::spawn(&w.rt, async move { s.abort().await.map_err(|e| format!("{e:#}")) })),
                Some(false) => Some(Call::spawn(&w.rt, async move { s.disconnect().await.map_err(|e| format!("{e:#}")) })),
            };
            w.expect(&mut m, if abort == Some(true) { "ABORT" } else { "DISCONNECT" })?;
            // Answered or not, reported or not: what was started for the connection ends with it.
            if c.is_none() && w.rng.chance(1, 6) {
                ended_owed += 1;
                rest(w, &mut m)?;
                hist.push(3);
                break;
            }
            m.send("OK");
            if let Some(c) = c {
                if let Err(e) = w.done(&mut m, "the accepted end of a stream", &c)? {
                    return bad("accepted disconnect failed", e);
                }
            }
            if w.rng.chance(1, 2) {
                say(w, &mut m, &t, "DISCONNECTED")?;
                hist.push(2);
            } else {
                count("ends never reported", 1);
                hist.push(4 + abort.map_or(0, |a| 1 + a as u8));
            }
        }
        rest(w, &mut m)?;
    }
    // Commands whose callers are gone by the time the handle is dropped.
    let k = match w.rng.below(4) {
        0 => 0,
        1 => 1,
        _ => w.rng.range(2, 7),
    };
    let mut owed = ended_owed;
    for i in 0..k {
        let id = callsign_no(i * 37 + 5);
        let c = t.start(w, Cmd::Call(vec![id.clone()]));
        w.expect(&mut m, &format!("MYCALL {id}"))?;
        owed += 1;
        c.abort();
        if w.rng.chance(1, 3) {
            rest(w, &mut m)?;
        }
        if w.rng.chance(1, 4) {
            m.send("OK");
            owed -= 1;
        }
    }
    hist.push(k as u8);
    hist.push(owed as u8);
    rest(w, &mut m)?;
    // One more, handed over in the last moment.
    let late = w.rng.chance(1, 3);
    let late_id = callsign(&mut w.rng);
    let id = late_id.clone();
    let inside = late || w.rng.chance(1, 2);
    if inside {
        let c = Call::spawn(&w.rt, async move {
            let t = t;
            if late {
                let r = PollLimit::new(Cmd::Call(vec![id]).run(t.get()), 1).await;
                if r.is_some() {
                    return false;
                }
            }
            t.drop().is_ok()
        });
        if !w.done(&mut m, "the handle to be dropped", &c)? {
            return bad("drop", "panicked, or a command completed without a reply");
        }
    } else {
        t.drop()?;
    }
    if late {
        w.expect(&mut m, &format!("MYCALL {late_id}"))?;
        owed += 1;
        count("commands handed over in the last moment", 1);
    }
    if owed > 0 {
        count("drops with replies outstanding", 1);
    }
    rest(w, &mut m)?;
    no_more_lines(&mut m, "after the handle was dropped")?;
    let lost = owed > 0 && w.rng.chance(1, 4);
    let stop_at = if lost { w.rng.range(0, owed - 1) } else { owed };
    for i in 0..stop_at {
        if m.ctl.closed.is_some() {
            return bad("closed before all replies", format!("{i} of {owed} replies sent"));
        }
        if w.rng.chance(1, 3) {
            let l = noise(&mut w.rng);
            m.send(&l);
            rest(w, &mut m)?;
            if m.ctl.closed.is_some() {
                return bad("closed before all replies", format!("{i} of {owed} replies sent"));
            }
        }
        let r: &[u8] = if w.rng.chance(1, 2) { b"OK\r" } else { b"WRONG\r" };
        let mode = w.rng.below(4);
        w.send_cut(&mut m, r, mode)?;
        count("replies after the drop", 1);
        if w.rng.chance(1, 2) {
            rest(w, &mut m)?;
        }
    }
    if lost {
        rest(w, &mut m)?;
        if m.ctl.closed.is_some() {
            return bad("closed before all replies", format!("{stop_at} of {owed} replies sent"));
        }
        match w.rng.below(3) {
            0 => m.ctl.shutdown_write(),
            1 => {
                m.ctl.reset();
                m.ctl.closed = Some(Closed::Reset);
            }
            _ => m.ctl.send(b"WHAT\r"),
        }
        count("modem lost after the drop", 1);
    }
    w.wind_down(&mut m)?;
    rest(w, &mut m)?;
    no_more_lines(&mut m, "at the end")?;
    hist.push(stop_at as u8);
    hist.push(late as u8 * 2 + lost as u8);
    hist.push(w.rng.byte() & 7);
    distinct(hash64(&hist));
    sample(|| format!("{k} commands, {owed} unanswered at the drop, late {late}, lost {lost}"));
    Ok(())
}

#[allow(dead_code)]
fn unused(_: Poll<()>) {}
