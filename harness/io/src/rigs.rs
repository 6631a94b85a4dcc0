//! C26, C27: the rig loop on a scripted stream, polled by hand, so that every operation on the rig
//! and every wake-up is seen.

use crate::common::{hash64, hex, Rng};
use crate::world::{bad, count, distinct, distinct_in, inc, maximum, sample, R};
use crate::Plan;
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc;

pub const PLAN26: Plan = Plan {
    stream: "C26",
    quick: 60_000,
    thorough: 1_500_000,
    batch: 2000,
    parallel: 8,
    rule: "a case is a sequence of commands, rig outputs, partial writes, stalls and wake-ups in random order; non-trivial: distinct script",
    floors: &[("commands relayed", 200_000), ("partial writes", 50_000), ("stalled writes", 20_000), ("loops ended with commands queued", 5000), ("bytes from the rig", 500_000)],
};
pub const PLAN27: Plan = Plan {
    stream: "C27",
    quick: 60_000,
    thorough: 1_500_000,
    batch: 2000,
    parallel: 8,
    rule: "a case is such a script with one fault at a chosen operation or byte; non-trivial: distinct script and fault",
    floors: &[("hang-ups", 10_000), ("read errors", 10_000), ("write errors", 10_000), ("idle loops watched", 50_000)],
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    HangUp,
    Read(io::ErrorKind),
    Write(io::ErrorKind),
    WriteZero,
}

#[derive(Default)]
pub struct State {
    incoming: VecDeque<Vec<u8>>,
    at_end: Option<Fault>,
    /// Bytes it takes before it stalls.
    room: usize,
    per_write: usize,
    per_read: usize,
    pub written: Vec<u8>,
    /// Writing fails from this byte on.
    write_fault: Option<(usize, Fault)>,
    pub ops: u64,
    faulted: bool,
    ops_after_fault: u64,
    partial: u64,
    stalled: u64,
    read: u64,
    reader: Option<Waker>,
    writer: Option<Waker>,
}

#[derive(Clone)]
pub struct Rig(pub Arc<Mutex<State>>);

impl Rig {
    pub fn new(room: usize, per_write: usize, per_read: usize) -> Rig {
        Rig(Arc::new(Mutex::new(State { room, per_write, per_read, ..State::default() })))
    }
    fn op(s: &mut State) {
        s.ops += 1;
        if s.faulted {
            s.ops_after_fault += 1;
            // A loop that never lets go can only be stopped from within.
            assert!(s.ops_after_fault < 100 * ENOUGH, "stopped by the harness: operations on the rig without end after the fault");
        }
    }
    pub fn give(&self, b: &[u8]) {
        let mut s = self.0.lock().unwrap();
        if !b.is_empty() {
            s.incoming.push_back(b.to_vec());
        }
        if let Some(w) = s.reader.take() {
            w.wake()
        }
    }
    pub fn open(&self, n: usize) {
        let mut s = self.0.lock().unwrap();
        s.room = s.room.saturating_add(n);
        if let Some(w) = s.writer.take() {
            w.wake()
        }
    }
    fn end(&self, f: Fault) {
        let mut s = self.0.lock().unwrap();
        s.at_end = Some(f);
        if let Some(w) = s.reader.take() {
            w.wake()
        }
        if let Some(w) = s.writer.take() {
            w.wake()
        }
    }
    pub fn written(&self) -> Vec<u8> {
        self.0.lock().unwrap().written.clone()
    }
    pub fn ops(&self) -> u64 {
        self.0.lock().unwrap().ops
    }
}

impl AsyncRead for Rig {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        Rig::op(&mut s);
        if let Some(mut c) = s.incoming.pop_front() {
            let n = c.len().min(s.per_read).min(buf.remaining());
            if n == 0 {
                s.incoming.push_front(c);
                return Poll::Ready(Ok(()));
            }
            buf.put_slice(&c[..n]);
            s.read += n as u64;
            if n < c.len() {
                c.drain(..n);
                s.incoming.push_front(c);
            }
            return Poll::Ready(Ok(()));
        }
        match s.at_end {
            Some(Fault::HangUp) => {
                s.faulted = true;
                Poll::Ready(Ok(()))
            }
            Some(Fault::Read(k)) => {
                s.faulted = true;
                Poll::Ready(Err(k.into()))
            }
            _ => {
                s.reader = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl AsyncWrite for Rig {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        Rig::op(&mut s);
        let mut n = buf.len().min(s.per_write);
        if let Some((at, f)) = s.write_fault {
            if s.written.len() >= at {
                s.faulted = true;
                return match f {
                    Fault::Write(k) => Poll::Ready(Err(k.into())),
                    _ => Poll::Ready(Ok(0)),
                };
            }
            n = n.min(at - s.written.len());
        }
        n = n.min(s.room);
        if n == 0 && !buf.is_empty() {
            s.stalled += 1;
            s.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if n < buf.len() {
            s.partial += 1;
        }
        s.room -= n;
        let b = buf[..n].to_vec();
        s.written.extend(b);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

#[derive(Default)]
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// The loop, polled only when it was woken.
pub struct Loop {
    fut: Pin<Box<dyn Future<Output = Result<(), String>>>>,
    /// For whatever the loop may start or wait for; all time passes while the loop sleeps.
    #[cfg(not(miri))]
    rt: tokio::runtime::Runtime,
    flag: Arc<Flag>,
    pub result: Option<Result<(), String>>,
    pub polls: u64,
}

impl Loop {
    pub fn new(rig: &Rig, capacity: usize) -> (Loop, mpsc::Sender<Command>) {
        let (tx, rx) = mpsc::channel(capacity);
        let r = rig.clone();
        let fut = Box::pin(async move { manage_rig_thread(rx, r).await.map_err(|e| format!("{e:#}")) });
        let flag = Arc::new(Flag::default());
        flag.0.store(true, Ordering::SeqCst);
        #[cfg(not(miri))]
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
        (
            Loop {
                fut,
                #[cfg(not(miri))]
                rt,
                flag,
                result: None,
                polls: 0,
            },
            tx,
        )
    }
    pub fn wake(&self) {
        self.flag.0.store(true, Ordering::SeqCst)
    }
    /// Runs it until it sleeps or ends, lets time pass, and runs it again should that have woken it.
    pub fn drive(&mut self) -> R {
        self.run()?;
        #[cfg(not(miri))]
        {
            self.rt.block_on(async { tokio::time::sleep(std::time::Duration::from_secs(3600)).await });
            self.run()?;
        }
        Ok(())
    }
    fn run(&mut self) -> R {
        #[cfg(not(miri))]
        let _context = self.rt.enter();
        let waker = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&waker);
        let mut n = 0;
        while self.result.is_none() && self.flag.0.swap(false, Ordering::SeqCst) {
            n += 1;
            self.polls += 1;
            if n > 20_000 {
                return bad("spinning", "the rig loop keeps waking itself up");
            }
            match crate::common::sut(|| self.fut.as_mut().poll(&mut cx)) {
                Ok(Poll::Ready(r)) => self.result = Some(r),
                Ok(Poll::Pending) => {}
                Err(p) => return bad("panic", p),
            }
        }
        Ok(())
    }
}

/// Longest piece the rig sends; an interpreter has to make do with less.
pub static LONGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(3000);

pub fn rig_output(rng: &mut Rng) -> Vec<u8> {
    match rng.below(9) {
        0 => b"ID017;".to_vec(),
        1 => b";".to_vec(),
        2 => b";;;".to_vec(),
        3 => b"?;".to_vec(),
        4 => b"FA00014074000".to_vec(),
        5 => {
            let n = rng.range(1, 40);
            rng.bytes(n)
        }
        6 => {
            // Text cut in the middle of a character.
            let t = "\u{20ac}\u{1f4fb}\u{e9}".as_bytes();
            t[..rng.range(1, t.len())].to_vec()
        }
        7 => {
            let n = rng.range(1, LONGEST.load(Ordering::Relaxed) / 10);
            (0..n).map(|_| *rng.pick(b";;0123456789AX\xff\x80")).collect()
        }
        _ => {
            let n = rng.range(0, LONGEST.load(Ordering::Relaxed));
            let mut v = vec![b'A'; n];
            if rng.chance(1, 2) {
                v.push(b';');
            }
            v
        }
    }
}

fn command(rng: &mut Rng, text: &mut Vec<u8>) -> Command {
    let t = rng.chance(1, 2);
    text.extend(if t { b"TX;" } else { b"RX;" });
    Command::SetTransmitState(if t { TransmitState::Transmit } else { TransmitState::Receive })
}

fn relayed(rig: &Rig, want: &[u8], exact: bool) -> R {
    let have = rig.written();
    if !want.starts_with(&have) || (exact && have.len() != want.len()) {
        return bad(
            "commands at the rig",
            format!("{:?} instead of {:?}", String::from_utf8_lossy(&have), String::from_utf8_lossy(want)),
        );
    }
    Ok(())
}

fn shape(rng: &mut Rng) -> Rig {
    let room = if rng.chance(1, 2) { usize::MAX / 2 } else { rng.range(0, 10) };
    let pw = *rng.pick(&[1usize, 2, 3, 100]);
    let pr = *rng.pick(&[1usize, 2, 7, 10_000]);
    Rig::new(room, pw, pr)
}

pub fn c26(mut rng: Rng) -> R {
    let rig = shape(&mut rng);
    let free = rig.0.lock().unwrap().room > 1000;
    let cap = rng.range(1, 8);
    let (mut l, tx) = Loop::new(&rig, cap);
    let mut tx = Some(tx);
    let mut want = Vec::new();
    let mut script = vec![cap as u8, free as u8];
    let n = rng.range(1, 40);
    for _ in 0..n {
        match rng.below(8) {
            0..=3 => {
                let mut t = want.clone();
                let c = command(&mut rng, &mut t);
                match tx.as_ref().unwrap().try_send(c) {
                    Ok(()) => {
                        want = t;
                        script.push(*want.last_chunk::<3>().unwrap().first().unwrap());
                    }
                    Err(mpsc::error::TrySendError::Full(_)) => {}
                    Err(_) => return bad("command refused", "the rig loop stopped listening without a fault"),
                }
            }
            4 | 5 => {
                let mut b = rig_output(&mut rng);
                if rig.0.lock().unwrap().per_read >= 10_000 && LONGEST.load(Ordering::Relaxed) >= 3000 && rng.chance(1, 400) {
                    // Very much, without an end in sight.
                    b = vec![*rng.pick(b"A0\xff"); rng.range(9_000, 300_000)];
                    count("endless responses", 1);
                }
                script.extend(&b[..b.len().min(3001)]);
                rig.give(&b);
            }
            6 => {
                let k = rng.range(1, 9);
                script.push(k as u8);
                if !free {
                    rig.open(k);
                }
            }
            _ => l.wake(),
        }
        if rng.chance(2, 3) {
            script.push(255);
            l.drive()?;
            if let Some(r) = &l.result {
                return bad("rig loop ended", format!("without a fault: {r:?}"));
            }
            relayed(&rig, &want, free)?;
        }
    }
    if rng.chance(1, 6) {
        // Idle means idle.
        l.drive()?;
        let (ops, polls) = (rig.ops(), l.polls);
        l.drive()?;
        if (rig.ops(), l.polls) != (ops, polls) {
            return bad("rig loop not idle", "");
        }
    }
    // The command side closes, perhaps with commands queued.
    let queued = cap - tx.as_ref().unwrap().capacity();
    if queued > 0 {
        count("loops ended with commands queued", 1);
    }
    drop(tx.take());
    if rng.chance(1, 2) {
        rig.give(&rig_output(&mut rng));
    }
    l.drive()?;
    if !free {
        while rng.chance(1, 2) && l.result.is_none() {
            rig.open(rng.range(1, 5));
            l.drive()?;
            relayed(&rig, &want, false)?;
        }
        rig.open(1 << 40);
        l.drive()?;
    }
    match &l.result {
        None => return bad("rig loop does not end", "although the command side is closed"),
        Some(Err(e)) => return bad("rig loop failed", format!("without a fault: {e}")),
        Some(Ok(())) => {}
    }
    relayed(&rig, &want, true)?;
    let s = rig.0.lock().unwrap();
    count("commands relayed", want.len() as u64 / 3);
    count("partial writes", s.partial);
    count("stalled writes", s.stalled);
    count("bytes from the rig", s.read);
    count("operations on the rig", s.ops);
    maximum("most polls in one case", l.polls);
    distinct(hash64(&script));
    sample(|| format!("{} commands, script {}", want.len() / 3, hex(&script[..script.len().min(60)])));
    Ok(())
}

/// More operations than any reasonable loop needs to notice.
const ENOUGH: u64 = 200;

pub fn c27(mut rng: Rng) -> R {
    use io::ErrorKind::*;
    let rig = shape(&mut rng);
    let cap = rng.range(1, 8);
    let (mut l, tx) = Loop::new(&rig, cap);
    let mut want = Vec::new();
    let mut script = vec![];
    let kinds = [BrokenPipe, ConnectionReset, TimedOut, Other, UnexpectedEof, NotConnected, PermissionDenied, InvalidData];
    let fault = match rng.below(4) {
        0 => Fault::HangUp,
        1 => Fault::Read(*rng.pick(&kinds)),
        2 => Fault::Write(*rng.pick(&kinds)),
        _ => Fault::WriteZero,
    };
    let on_write = matches!(fault, Fault::Write(_) | Fault::WriteZero);
    let n = rng.range(0, 20);
    let fault_byte = rng.range(0, 15);
    if on_write {
        rig.0.lock().unwrap().write_fault = Some((fault_byte, fault));
    }
    let step = |rng: &mut Rng, l: &mut Loop, want: &mut Vec<u8>, script: &mut Vec<u8>| -> R<bool> {
        match rng.below(6) {
            0..=2 => {
                let mut t = want.clone();
                let c = command(rng, &mut t);
                match tx.try_send(c) {
                    Ok(()) => *want = t,
                    Err(mpsc::error::TrySendError::Full(_)) => {}
                    Err(_) => {
                        if l.result.is_none() {
                            return bad("command refused", "before the loop ended");
                        }
                    }
                }
                script.push(1);
            }
            3 | 4 => {
                let b = rig_output(rng);
                script.extend(&b);
                rig.give(&b);
            }
            _ => {
                let k = rng.range(1, 9);
                script.push(k as u8 + 1);
                rig.open(k);
            }
        }
        if rng.chance(1, 2) {
            script.push(255);
            l.drive()?;
        }
        Ok(l.result.is_some())
    };
    for _ in 0..n {
        if step(&mut rng, &mut l, &mut want, &mut script)? {
            break;
        }
    }
    if l.result.is_some() && !on_write {
        return bad("rig loop ended", format!("before the fault: {:?}", l.result));
    }
    match fault {
        Fault::HangUp | Fault::Read(_) => {
            rig.end(fault);
            rig.open(1 << 40);
            l.drive()?;
        }
        _ => {
            rig.open(1 << 40);
            l.drive()?;
            let mut n = 0;
            while l.result.is_none() {
                if want.len() > fault_byte {
                    return bad("rig loop does not end", format!("{fault:?} at byte {fault_byte}, {} bytes of commands given", want.len()));
                }
                step(&mut rng, &mut l, &mut want, &mut script)?;
                l.drive()?;
                n += 1;
                if n > 10_000 {
                    return inc("harness: no command for the fault");
                }
            }
        }
    }
    match &l.result {
        None => return bad("rig loop does not end", format!("after {fault:?}")),
        Some(Ok(())) => return bad("rig loop ended as if all was well", format!("after {fault:?}")),
        Some(Err(_)) => {}
    }
    let after = rig.0.lock().unwrap().ops_after_fault;
    if after > ENOUGH {
        return bad("rig loop carries on", format!("{after} operations after {fault:?}"));
    }
    maximum("operations after a fault", after);
    relayed(&rig, &want, false)?;
    // Later commands are refused.
    let mut t = Vec::new();
    match tx.try_send(command(&mut rng, &mut t)) {
        Err(mpsc::error::TrySendError::Closed(_)) => {}
        r => return bad("command swallowed", format!("after {fault:?}: {r:?}")),
    }
    count(
        match fault {
            Fault::HangUp => "hang-ups",
            Fault::Read(_) => "read errors",
            _ => "write errors",
        },
        1,
    );
    // A silent rig and no commands: nothing happens.
    let quiet = Rig::new(1000, 100, 100);
    let (mut l2, tx2) = Loop::new(&quiet, 1);
    l2.drive()?;
    if rng.chance(1, 2) {
        quiet.give(&rig_output(&mut rng));
        l2.drive()?;
    }
    let (o, p) = (quiet.ops(), l2.polls);
    for _ in 0..3 {
        l2.drive()?;
    }
    if (quiet.ops(), l2.polls) != (o, p) || l2.result.is_some() {
        return bad("rig loop not idle", format!("{} operations, {} polls, {:?}", quiet.ops() - o, l2.polls - p, l2.result));
    }
    count("idle loops watched", 1);
    drop(tx2);
    distinct(hash64(&script) ^ fault_byte as u64 ^ hash64(format!("{fault:?}").as_bytes()));
    distinct_in("faults", hash64(format!("{fault:?}{}", if on_write { fault_byte } else { 0 }).as_bytes()));
    sample(|| format!("{fault:?} at byte {fault_byte}, script {}", hex(&script[..script.len().min(60)])));
    Ok(())
}
