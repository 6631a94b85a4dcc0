//! C30: the same scripted session, with logging off, at the most verbose level and at some level in
//! between. Whatever the library does, it must do all three times.

use crate::common::{hash64, hex, Rng};
use crate::conn::{gently, Stream, Tnc};
use crate::ctl::{garbage, noise, Cmd};
use crate::rigs::{rig_output, Loop, Rig};
use crate::world::*;
use crate::{Plan, Sink};
use plusendi::rig::elecraft::kx3::{Command, TransmitState};
use plusendi::StationId;
use std::sync::atomic::{AtomicUsize, Ordering};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tracing_subscriber::layer::SubscriberExt;

pub const PLAN30: Plan = Plan {
    stream: "C30",
    quick: 1400,
    thorough: 30_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a scripted modem or rig session run three times, with logging off, at TRACE and at some level; non-trivial: distinct transcript",
    floors: &[
        ("transcripts compared", 400),
        ("steps compared", 5000),
        ("bytes logged", 1_000_000),
        ("lines that are not UTF-8", 80),
        ("sessions that failed the same way", 60),
        ("rig scripts", 1000),
        ("handles dropped with replies outstanding", 300),
    ],
};

/// 0 off, 1 error ... 5 trace.
static LEVEL: AtomicUsize = AtomicUsize::new(0);

struct Gate;
impl<S: tracing::Subscriber> tracing_subscriber::Layer<S> for Gate {
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn enabled(&self, m: &tracing::Metadata<'_>, _: tracing_subscriber::layer::Context<'_, S>) -> bool {
        let l = match *m.level() {
            tracing::Level::ERROR => 1,
            tracing::Level::WARN => 2,
            tracing::Level::INFO => 3,
            tracing::Level::DEBUG => 4,
            tracing::Level::TRACE => 5,
        };
        l <= LEVEL.load(Ordering::SeqCst)
    }
}

pub fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let sub = tracing_subscriber::registry().with(Gate).with(tracing_subscriber::fmt::layer().with_writer(|| Sink));
        let _ = tracing::subscriber::set_global_default(sub);
    });
}

type Log = Vec<String>;

/// Runs a scenario at a level; a violation seen by it is part of what it did.
fn at_level(level: usize, f: impl FnOnce(&mut Log) -> R) -> R<Log> {
    LEVEL.store(level, Ordering::SeqCst);
    let mut log = vec![];
    let r = f(&mut log);
    LEVEL.store(0, Ordering::SeqCst);
    if let Some(x) = crate::INVALID_LOG.lock().unwrap().first() {
        return bad("log is not UTF-8", x.clone());
    }
    let stray = std::mem::take(&mut *crate::common::STRAY_PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    match r {
        Ok(()) => {}
        Err(End::Bad(b)) => log.push(format!("violation: {}", b.what)),
        Err(e) => return Err(e),
    }
    if let Some(p) = stray.first() {
        log.retain(|l| l != "violation: panic");
        log.push(format!("panic: {p}"));
    }
    Ok(log)
}

fn reports(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..rng.range(1, 6) {
        v.extend(noise(rng).as_bytes());
        v.push(b'\r');
    }
    v
}

struct Session<'a> {
    w: W,
    m: Modem,
    log: &'a mut Log,
    seen: usize,
    data_seen: usize,
    beat: Option<std::time::Instant>,
}

impl Session<'_> {
    /// Everything at rest: what has become visible since the last time.
    fn rest(&mut self, t: &Tnc) -> R {
        self.w.settle(&mut self.m)?;
        let m = &mut self.m;
        let new = m.lines[self.seen..].join("|");
        self.seen = m.lines.len();
        m.seen = self.seen;
        let data = hex(&m.data.got[self.data_seen..]);
        self.data_seen = m.data.got.len();
        let x = t.get();
        let beat = Some(x.last_heartbeat());
        let moved = std::mem::replace(&mut self.beat, beat) != beat;
        self.log.push(format!(
            "lines {new:?} data {data} closed {} {} level {} busy {:?} tx {:?} heartbeat {moved}",
            m.ctl.closed.is_some(),
            m.data.closed.is_some(),
            x.buffer(),
            x.busy_state(),
            *x.subscribe_rig_command().borrow(),
        ));
        count("steps compared", 1);
        Ok(())
    }
    fn outcome<T>(&mut self, what: &str, r: Option<Result<T, String>>) {
        self.log.push(match r {
            None => format!("{what}: nothing yet"),
            Some(Ok(_)) => format!("{what}: ok"),
            Some(Err(e)) => format!("{what}: {e}"),
        });
    }
}

/// Reads what there is, with a buffer of some size, at most `n` bytes; then hands the stream back.
fn read(s: &Session, stream: Stream, n: usize, size: usize) -> Call<(Stream, Vec<u8>, String)> {
    Call::spawn(&s.w.rt, async move {
        let mut stream = stream;
        let mut v = vec![];
        let mut end = "more".to_string();
        while v.len() < n {
            let mut b = vec![0; size];
            match stream.read(&mut b).await {
                Ok(0) => {
                    end = "end".into();
                    break;
                }
                Ok(k) => v.extend_from_slice(&b[..k]),
                Err(e) => {
                    end = format!("{:?}", e.kind());
                    break;
                }
            }
        }
        (stream, v, end)
    })
}

fn write(s: &Session, stream: Stream, b: Vec<u8>) -> Call<(Stream, String)> {
    Call::spawn(&s.w.rt, async move {
        let mut stream = stream;
        let r = match stream.write_all(&b).await {
            Ok(()) => "written".to_string(),
            Err(e) => format!("{:?}", e.kind()),
        };
        (stream, r)
    })
}

fn modem(rng: Rng, log: &mut Log) -> R {
    let mut w = W::new(rng, 0);
    let (m, t) = w.open()?;
    let t = Tnc::new(t);
    let mut s = Session { w, m, log, seen: 0, data_seen: 0, beat: None };
    s.rest(&t)?;
    let mut stream: Option<Stream> = None;
    let steps = s.w.rng.range(2, 9);
    let fault_at = if s.w.rng.chance(1, 2) { s.w.rng.range(0, steps) } else { usize::MAX };
    for step in 0..steps {
        if step == fault_at {
            // Outstanding calls, then the end.
            let mut cs = vec![];
            for _ in 0..s.w.rng.range(0, 2) {
                let c = Cmd::any(&mut s.w.rng);
                cs.push(t.start(&s.w, c));
                s.rest(&t)?;
            }
            match s.w.rng.below(5) {
                0 => s.m.ctl.shutdown_write(),
                1 => {
                    let n = s.w.rng.range(1, 40);
                    let mut b = s.w.rng.bytes(n);
                    b.push(b'\r');
                    count("lines that are not UTF-8", 1);
                    s.m.ctl.send(&b);
                }
                2 => {
                    // Cut in the middle of a character, and then the connection ends.
                    s.m.ctl.send(b"BUFFER 1\xe2\x82");
                    s.w.settle(&mut s.m)?;
                    s.m.ctl.shutdown_write();
                    count("lines that are not UTF-8", 1);
                }
                _ => {
                    let mut b = garbage(&mut s.w.rng);
                    if std::str::from_utf8(&b).is_err() {
                        count("lines that are not UTF-8", 1);
                    }
                    b.push(b'\r');
                    if s.w.rng.chance(1, 2) {
                        b = [reports(&mut s.w.rng), b].concat();
                    }
                    let mode = s.w.rng.below(3);
                    if mode == 0 {
                        s.m.ctl.send(&b);
                    } else {
                        for c in b.chunks(7) {
                            s.m.ctl.send(c);
                            s.w.settle(&mut s.m)?;
                        }
                    }
                }
            }
            s.rest(&t)?;
            for c in &cs {
                let r = c.take();
                s.outcome("outstanding", r);
            }
            let c = t.start(&s.w, Cmd::Abort);
            s.rest(&t)?;
            let r = c.take();
            s.outcome("later", r);
            count("sessions that failed the same way", 1);
            if let Some(x) = stream.take() {
                let c = read(&s, x, 1, 10);
                s.rest(&t)?;
                if let Some((x, v, e)) = c.take() {
                    s.log.push(format!("read {} {e}", hex(&v)));
                    let c = write(&s, x, vec![1]);
                    s.rest(&t)?;
                    if let Some((x, e)) = c.take() {
                        s.log.push(format!("write {e}"));
                        gently(|| drop(x))?;
                    }
                } else {
                    s.log.push("read: nothing yet".into());
                }
            }
            break;
        }
        match s.w.rng.below(8) {
            0 | 1 => {
                let n = s.w.rng.range(1, 3);
                let mut cs = vec![];
                for _ in 0..n {
                    let c = Cmd::any(&mut s.w.rng);
                    // Replies to ending a connection stay what they are, the connection with them.
                    cs.push(t.start(&s.w, c));
                    s.rest(&t)?;
                }
                let mut b = vec![];
                for _ in 0..n {
                    b.extend_from_slice(if s.w.rng.chance(1, 2) { b"OK\r" } else { b"WRONG\r" });
                    if s.w.rng.chance(1, 2) {
                        b.extend(reports(&mut s.w.rng));
                    }
                }
                let cut = s.w.rng.range(0, b.len());
                s.m.ctl.send(&b[..cut]);
                s.rest(&t)?;
                s.m.ctl.send(&b[cut..]);
                s.rest(&t)?;
                for c in &cs {
                    let r = c.take();
                    s.outcome("command", r);
                }
            }
            2 => {
                let b = reports(&mut s.w.rng);
                let cut = s.w.rng.range(0, b.len());
                s.m.ctl.send(&b[..cut]);
                s.rest(&t)?;
                s.m.ctl.send(&b[cut..]);
                s.rest(&t)?;
            }
            3 | 4 if stream.is_none() => {
                let (a, b) = (callsign(&mut s.w.rng), callsign(&mut s.w.rng));
                let c = t.start_connect(&s.w, &a, &b);
                s.rest(&t)?;
                match s.w.rng.below(5) {
                    0 => s.m.send("WRONG"),
                    1 => {
                        s.m.send("OK");
                        s.rest(&t)?;
                        s.m.send("DISCONNECTED");
                    }
                    _ => {
                        s.m.send("OK");
                        s.rest(&t)?;
                        s.m.send(&format!("CONNECTED {a} {b}"));
                    }
                }
                s.rest(&t)?;
                match c.take() {
                    Some(Ok(x)) => {
                        s.log.push("connect: ok".into());
                        stream = Some(x);
                    }
                    r => s.outcome("connect", r),
                }
            }
            _ => {
                if let Some(x) = stream.take() {
                    match s.w.rng.below(6) {
                        0 | 1 => {
                            let n = s.w.rng.range(1, 300);
                            let b = s.w.rng.bytes(n);
                            s.m.data.send(&b);
                            s.w.settle(&mut s.m)?;
                            let size = *s.w.rng.pick(&[1, 7, 100, 1000]);
                            let c = read(&s, x, n, size);
                            s.rest(&t)?;
                            match c.take() {
                                Some((x, v, e)) => {
                                    s.log.push(format!("read {} {e}", hex(&v)));
                                    stream = Some(x);
                                }
                                None => s.log.push("read: nothing yet".into()),
                            }
                        }
                        2 | 3 => {
                            let n = s.w.rng.range(1, 300);
                            let b = s.w.rng.bytes(n);
                            let c = write(&s, x, b);
                            s.rest(&t)?;
                            match c.take() {
                                Some((x, e)) => {
                                    s.log.push(format!("write {e}"));
                                    stream = Some(x);
                                }
                                None => s.log.push("write: nothing yet".into()),
                            }
                        }
                        4 => {
                            s.m.send("DISCONNECTED");
                            s.rest(&t)?;
                            let c = read(&s, x, 1, 10);
                            s.rest(&t)?;
                            match c.take() {
                                Some((x, v, e)) => {
                                    s.log.push(format!("read {} {e}", hex(&v)));
                                    gently(|| drop(x))?;
                                    s.rest(&t)?;
                                }
                                None => s.log.push("read: nothing yet".into()),
                            }
                        }
                        _ => {
                            gently(|| drop(x))?;
                            s.rest(&t)?;
                            s.m.send(if s.w.rng.chance(1, 2) { "OK" } else { "WRONG" });
                            s.m.send("DISCONNECTED");
                            s.rest(&t)?;
                        }
                    }
                } else {
                    let id = StationId::new(callsign(&mut s.w.rng)).unwrap();
                    s.m.send(&format!("REGISTERED {id}"));
                    s.rest(&t)?;
                    s.log.push(format!("{:?}", t.get().local_registration(&id)));
                }
            }
        }
    }
    if let Some(x) = stream.take() {
        gently(|| drop(x))?;
        s.rest(&t)?;
    }
    // Commands given up, so that their replies are still to come when the handle goes.
    if s.w.rng.chance(1, 2) {
        for _ in 0..s.w.rng.range(1, 3) {
            let c = Cmd::any(&mut s.w.rng);
            let c = t.start(&s.w, c);
            s.rest(&t)?;
            c.abort();
            s.w.settle(&mut s.m)?;
        }
        count("handles dropped with replies outstanding", 1);
    }
    t.drop()?;
    s.w.settle(&mut s.m)?;
    // A disconnect or whatever else is still unanswered.
    for i in 0..8 {
        let m = &s.m;
        s.log.push(format!("closed {} {} after {i} replies", m.ctl.closed.is_some(), m.data.closed.is_some()));
        if i < 5 && m.ctl.closed.is_none() {
            s.m.send("OK");
            s.w.settle(&mut s.m)?;
        }
    }
    let m = &s.m;
    s.log.push(format!("at the end lines {:?} closed {} {}", &m.lines[s.seen..], m.ctl.closed.is_some(), m.data.closed.is_some()));
    Ok(())
}

fn rig(mut rng: Rng, log: &mut Log) -> R {
    let room = if rng.chance(1, 2) { usize::MAX / 2 } else { rng.range(0, 10) };
    let free = room > 1000;
    let r = Rig::new(room, *rng.pick(&[1usize, 2, 3, 100]), *rng.pick(&[1usize, 2, 7, 10_000]));
    let (mut l, tx) = Loop::new(&r, 4);
    l.drive()?;
    for _ in 0..rng.range(1, 20) {
        match rng.below(4) {
            0 => {
                let c = Command::SetTransmitState(if rng.chance(1, 2) { TransmitState::Transmit } else { TransmitState::Receive });
                log.push(format!("command {:?}", tx.try_send(c).map_err(|_| "refused")));
            }
            1 if !free => r.open(rng.range(1, 9)),
            _ => {
                let b = rig_output(&mut rng);
                if std::str::from_utf8(&b).is_err() {
                    count("rig output that is not UTF-8", 1);
                }
                r.give(&b);
            }
        }
        // One thing at a time: nothing here is up to chance.
        l.drive()?;
        log.push(format!("{} {:?}", hex(&r.written()), l.result));
        count("steps compared", 1);
    }
    if !free {
        r.open(1 << 40);
        l.drive()?;
    }
    drop(tx);
    l.drive()?;
    log.push(format!("{} {:?}", hex(&r.written()), l.result));
    Ok(())
}

fn compare(rng: &Rng, mid: usize, kind: &str, f: fn(Rng, &mut Log) -> R) -> R {
    let off = at_level(0, |l| f(rng.clone(), l))?;
    for level in [5, mid] {
        let on = at_level(level, |l| f(rng.clone(), l))?;
        if on != off {
            let i = on.iter().zip(&off).position(|(a, b)| a != b).unwrap_or(on.len().min(off.len()));
            // Chance is ruled out: it stays what it was, either way.
            for _ in 0..2 {
                let again = at_level(0, |l| f(rng.clone(), l))?;
                let on = at_level(level, |l| f(rng.clone(), l))?;
                if again != off || on == off {
                    return inc(format!("harness: this {kind} session is not reproducible: step {i} {:?} / {:?} / {:?}", off.get(i), again.get(i), on.get(i)));
                }
            }
            return bad(
                "logging changed the behaviour",
                format!("level {level}, {kind} session, step {i}: {:?} instead of {:?}", on.get(i), off.get(i)),
            );
        }
        count("transcripts compared", 1);
    }
    distinct(hash64(off.join("\n").as_bytes()));
    sample(|| off.iter().take(6).cloned().collect::<Vec<_>>().join(" / "));
    Ok(())
}

pub fn c30(mut rng: Rng) -> R {
    install();
    let mid = rng.range(1, 4);
    for _ in 0..2 {
        rng.next();
        count("rig scripts", 1);
        compare(&rng, mid, "rig", rig)?;
    }
    compare(&rng, mid, "modem", modem)
}
