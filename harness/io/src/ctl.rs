//! C17 replies, C18 status, C19 loss of the modem.

use crate::common::Rng;
use crate::world::*;
use crate::Plan;
use plusendi::modem::vara::*;
use plusendi::{StationId, StationIdRef};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const PLAN17: Plan = Plan {
    stream: "C17",
    quick: 4000,
    thorough: 30_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a modem handle shared by 1-40 tasks issuing commands, some abandoned, against a modem with its own timing, batching and segmentation; non-trivial: distinct sequence of lines and reply batches",
    floors: &[("calls that completed", 5000), ("commands abandoned", 300), ("replies batched together", 500), ("replies nobody waits for", 50), ("errors for WRONG", 1000), ("commands held up in full buffers", 30)],
};

#[derive(Clone, Debug)]
pub enum Cmd {
    Call(Vec<String>),
    Compression(CompressionMode),
    Bandwidth(BandwidthMode),
    Disconnect,
    Abort,
}

impl Cmd {
    pub fn line(&self) -> String {
        match self {
            Cmd::Call(v) => format!("MYCALL {}", v.join(" ")),
            Cmd::Compression(CompressionMode::Off) => "COMPRESSION OFF".into(),
            Cmd::Compression(CompressionMode::Text) => "COMPRESSION TEXT".into(),
            Cmd::Compression(CompressionMode::Files) => "COMPRESSION FILES".into(),
            Cmd::Bandwidth(BandwidthMode::Narrow) => "BW500".into(),
            Cmd::Bandwidth(BandwidthMode::Wide) => "BW2300".into(),
            Cmd::Bandwidth(BandwidthMode::Tactical) => "BW2750".into(),
            Cmd::Disconnect => "DISCONNECT".into(),
            Cmd::Abort => "ABORT".into(),
        }
    }
    pub async fn run(self, tnc: &VaraTnc) -> Result<(), String> {
        match self {
            Cmd::Call(v) => {
                let mut ids: Vec<StationId> = v.iter().map(|s| StationId::new(s.as_str()).unwrap()).collect();
                let first = ids.remove(0);
                if ids.is_empty() {
                    tnc.send_callsign(first).await
                } else {
                    tnc.send_callsign(MyCallSigns(first, ids)).await
                }
            }
            Cmd::Compression(m) => tnc.send_compression(m).await,
            Cmd::Bandwidth(m) => tnc.send_bandwidth(m).await,
            Cmd::Disconnect => tnc.send_disconnect().await,
            Cmd::Abort => tnc.send_abort().await,
        }
        .map_err(|e| format!("{e:#}"))
    }
    pub fn any(rng: &mut crate::common::Rng) -> Cmd {
        match rng.below(4) {
            0 => Cmd::Compression(*rng.pick(&[CompressionMode::Off, CompressionMode::Text, CompressionMode::Files])),
            1 => Cmd::Bandwidth(*rng.pick(&[BandwidthMode::Narrow, BandwidthMode::Wide, BandwidthMode::Tactical])),
            2 => Cmd::Disconnect,
            _ => Cmd::Abort,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Give {
    Never,
    Polls(usize),
    Seen,
}

struct Item {
    cmd: Cmd,
    line: String,
    unique: bool,
    give: Give,
    yields: usize,
}

pub fn noise(rng: &mut crate::common::Rng) -> String {
    match rng.below(8) {
        0 => "IAMALIVE".into(),
        1 => format!("BUFFER {}", rng.below(100_000)),
        2 => (*rng.pick(&["BUSY ON", "BUSY OFF"])).into(),
        3 => (*rng.pick(&["PTT ON", "PTT OFF"])).into(),
        4 => format!("REGISTERED {}", callsign(rng)),
        5 => (*rng.pick(&["PENDING", "CANCELPENDING"])).into(),
        _ => (*rng.pick(&["IAMALIVE", "BUSY OFF", "PTT OFF"])).into(),
    }
}

pub fn c17(w: &mut W) -> R {
    // A modem that takes nothing until every task waits, and then little at a time.
    let held_up = w.rng.chance(1, 50);
    let clients = match w.rng.below(8) {
        _ if held_up => w.rng.range(250, 400),
        0 => 1,
        1 => w.rng.range(12, 40),
        _ => w.rng.range(2, 8),
    };
    let per = if held_up { w.rng.range(1, 2) } else if clients > 10 { w.rng.range(1, 4) } else { w.rng.range(1, 14) };
    let unique_share = if held_up { 100 } else { *w.rng.pick(&[100u64, 70, 30]) };
    let give_share = *w.rng.pick(&[0u64, 0, 10, 40]);
    let mut number = w.rng.range(0, 1000);
    let mut plans: Vec<Vec<Item>> = Vec::new();
    for _ in 0..clients {
        let mut v = Vec::new();
        for _ in 0..per {
            let unique = w.rng.chance(unique_share, 100);
            let cmd = if unique {
                number += w.rng.range(1, 900);
                let mut ids = vec![callsign_no(number)];
                while ids.len() < 6 && w.rng.chance(if held_up { 9 } else { 3 }, if held_up { 10 } else { 9 }) {
                    ids.push(callsign(&mut w.rng));
                }
                if !held_up && w.rng.chance(1, 150) {
                    // A line far longer than any buffer meant for one.
                    for _ in 0..w.rng.range(100, 1200) {
                        ids.push(callsign(&mut w.rng));
                    }
                    count("commands of thousands of bytes", 1);
                }
                Cmd::Call(ids)
            } else {
                Cmd::any(&mut w.rng)
            };
            let give = if w.rng.chance(give_share, 100) {
                if unique && w.rng.chance(1, 2) {
                    Give::Seen
                } else {
                    Give::Polls(w.rng.range(1, 4))
                }
            } else {
                Give::Never
            };
            let line = cmd.line();
            v.push(Item { cmd, line, unique, give, yields: if w.rng.chance(1, 3) { w.rng.range(1, 20) } else { 0 } });
        }
        plans.push(v);
    }
    // The modem's opinion of each command text.
    let salt = w.rng.next();
    let wrong_in_8 = w.rng.range(1, 6) as u64;
    let is_ok = move |line: &str| (crate::common::hash64(line.as_bytes()) ^ salt).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 61 >= wrong_in_8;

    let (mut m, tnc) = if held_up { w.open_narrow()? } else { w.open()? };
    if held_up {
        m.ctl.appetite = 0;
    }
    let tnc = Arc::new(tnc);
    type Log = Arc<Mutex<Vec<(usize, usize, Option<Result<(), String>>)>>>;
    let log: Log = Arc::default();
    let mut seen_signal: HashMap<String, tokio::sync::oneshot::Sender<()>> = HashMap::new();
    let mut calls = Vec::new();
    for (c, plan) in plans.iter().enumerate() {
        let mut todo = Vec::new();
        for it in plan {
            let rx = (it.give == Give::Seen).then(|| {
                let (tx, rx) = tokio::sync::oneshot::channel();
                seen_signal.insert(it.line.clone(), tx);
                rx
            });
            todo.push((it.cmd.clone(), it.give, it.yields, rx));
        }
        let (tnc, log) = (tnc.clone(), log.clone());
        calls.push(Call::spawn(&w.rt, async move {
            for (i, (cmd, give, yields, rx)) in todo.into_iter().enumerate() {
                for _ in 0..yields {
                    tokio::task::yield_now().await;
                }
                let r = match give {
                    Give::Never => Some(cmd.run(&tnc).await),
                    Give::Polls(n) => PollLimit::new(cmd.run(&tnc), n).await,
                    Give::Seen => {
                        let rx = rx.unwrap();
                        tokio::select! {
                            biased;
                            r = cmd.run(&tnc) => Some(r),
                            _ = rx => None,
                        }
                    }
                };
                log.lock().unwrap().push((c, i, r));
            }
        }));
    }

    if held_up {
        w.settle(&mut m)?;
        let all: usize = plans.iter().flatten().filter(|it| it.give == Give::Never).map(|it| it.line.len() + 1).sum::<usize>() / per;
        if m.ctl.waiting() < all {
            count("commands held up in full buffers", 1);
        }
        maximum("bytes waiting at a modem that takes nothing", m.ctl.waiting() as u64);
        m.ctl.appetite = *w.rng.pick(&[20usize, 100, 1000, usize::MAX]);
    }
    // Replies owed, oldest first.
    let mut owed: VecDeque<bool> = VecDeque::new();
    let eagerness = *w.rng.pick(&[1u64, 2, 10, 60]);
    let noise_share = *w.rng.pick(&[0u64, 20, 50]);
    let cut = w.rng.below(4);
    let mut rng = w.rng.clone();
    let mut history = Vec::new();
    let mut lines_seen = 0;
    let mut max_owed = 0;
    loop {
        let mut finished = false;
        let mut out = Vec::new();
        w.wait(&mut m, "all calls to complete", |m| {
            while let Some(l) = m.next() {
                lines_seen += 1;
                owed.push_back(is_ok(&l));
                history.extend(l.as_bytes());
                if let Some(tx) = seen_signal.remove(&l) {
                    let _ = tx.send(());
                }
            }
            max_owed = max_owed.max(owed.len());
            if owed.is_empty() {
                finished = calls.iter().all(|c| c.done());
                // A command may still be on its way when its caller has given up.
                return Ok(finished);
            }
            if rng.below(eagerness) == 0 {
                let n = rng.range(1, owed.len());
                if n > 1 {
                    count("replies batched together", n as u64);
                }
                for _ in 0..n {
                    while rng.chance(noise_share, 100) {
                        out.extend(noise(&mut rng).as_bytes());
                        out.push(b'\r');
                    }
                    out.extend(if owed.pop_front().unwrap() { &b"OK\r"[..] } else { b"WRONG\r" });
                }
                while rng.chance(noise_share, 100) {
                    out.extend(noise(&mut rng).as_bytes());
                    out.push(b'\r');
                }
                history.push(n as u8);
                return Ok(true);
            }
            Ok(false)
        })?;
        if finished {
            break;
        }
        let mode = if cut == 3 && w.rng.chance(3, 4) { 0 } else { cut };
        w.send_cut(&mut m, &out, mode)?;
    }
    // Abandoned commands that were still queued: answer them too.
    w.settle(&mut m)?;
    while let Some(l) = m.next() {
        lines_seen += 1;
        history.extend(l.as_bytes());
        let ok = is_ok(&l);
        m.send(if ok { "OK" } else { "WRONG" });
        w.settle(&mut m)?;
    }

    // Replies nobody waits for, then calls as usual.
    let mut extra = Vec::new();
    if w.rng.chance(1, 2) {
        for round in 0..w.rng.range(1, 4) {
            let n = w.rng.range(1, 4);
            for _ in 0..n {
                let l = *w.rng.pick(&["OK", "WRONG"]);
                m.send(l);
            }
            count("replies nobody waits for", n as u64);
            w.settle(&mut m)?;
            // The level is the sign that all of the above was processed.
            let level = 1_000_000 + round;
            m.send(&format!("BUFFER {level}"));
            w.wait(&mut m, "the buffer level to be reported", |_| Ok(tnc.buffer() == level))?;
            number += 1;
            let cmd = Cmd::Call(vec![callsign_no(number)]);
            let line = cmd.line();
            extra.push(line.clone());
            let t = tnc.clone();
            let call = Call::spawn(&w.rt, async move { cmd.run(&t).await });
            w.expect(&mut m, &line)?;
            w.settle(&mut m)?;
            if let Some(r) = call.take() {
                return bad("reply without a reply", format!("{line:?} completed with {r:?} before it was answered, after {n} replies nobody waited for"));
            }
            let ok = is_ok(&line);
            m.send(if ok { "OK" } else { "WRONG" });
            let r = w.done(&mut m, "a call to complete", &call)?;
            if r.is_ok() != ok {
                return bad("someone else's reply", format!("{line:?} was answered {ok}, the call returned {r:?}"));
            }
        }
    }
    crate::common::sut(|| drop(tnc)).map_err(|p| End::Bad(crate::common::Bad { what: "panic".into(), detail: p }))?;
    w.wind_down(&mut m)?;

    // The oracle.
    let log = std::mem::take(&mut *log.lock().unwrap());
    let mut must: BTreeMap<String, (usize, usize)> = BTreeMap::new(); // at least, at most
    let mut completed = 0;
    for (c, i, r) in &log {
        let it = &plans[*c][*i];
        let e = must.entry(it.line.clone()).or_default();
        e.1 += 1;
        match r {
            Some(r) => {
                completed += 1;
                e.0 += 1;
                let ok = is_ok(&it.line);
                if r.is_ok() != ok {
                    return bad(
                        "someone else's reply",
                        format!("task {c} command {i} {:?}: the modem answered {}, the call returned {r:?}", it.line, if ok { "OK" } else { "WRONG" }),
                    );
                }
                if !ok {
                    count("errors for WRONG", 1);
                }
            }
            None => {
                count("commands abandoned", 1);
            }
        }
    }
    for l in &extra {
        let e = must.entry(l.clone()).or_default();
        *e = (1, 1);
    }
    let mut have: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &m.lines {
        *have.entry(l).or_default() += 1;
    }
    for (l, n) in &have {
        let (_, most) = must.get(*l).copied().unwrap_or((0, 0));
        if *n > most {
            return bad("line nobody sent", format!("{l:?} reached the modem {n} times, issued {most} times"));
        }
    }
    for (l, (least, _)) in &must {
        if have.get(l.as_str()).copied().unwrap_or(0) < *least {
            return bad("command lost", format!("{l:?} completed {least} times but reached the modem {:?} times", have.get(l.as_str())));
        }
    }
    let at: HashMap<&str, usize> = m.lines.iter().enumerate().map(|(i, l)| (l.as_str(), i)).collect();
    for plan in &plans {
        let mut last = 0;
        for it in plan.iter().filter(|it| it.unique) {
            if let Some(&p) = at.get(it.line.as_str()) {
                if p < last {
                    return bad("commands of one task out of order", format!("{:?} in {:?}", it.line, m.lines));
                }
                last = p;
            }
        }
    }
    count("calls that completed", completed);
    count("lines at the modem", m.lines.len() as u64);
    maximum("replies outstanding at once", max_owed as u64);
    maximum("tasks", clients as u64);
    distinct(crate::common::hash64(&history));
    sample(|| format!("{clients} tasks x {per}, {} lines, first {:?}", m.lines.len(), m.lines.iter().take(4).collect::<Vec<_>>()));
    let _ = lines_seen;
    Ok(())
}

// ---------------------------------------------------------------- C18

pub const PLAN18: Plan = Plan {
    stream: "C18",
    quick: 4000,
    thorough: 24_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a sequence of status reports cut into segments, the accessors sampled all along and compared at rest; non-trivial: distinct report sequence and cuts",
    floors: &[("reports", 20_000), ("comparisons at rest", 2000), ("levels above 2^32", 100), ("segment boundaries seen by the loop", 500)],
};

pub fn c18(w: &mut W) -> R {
    let (mut m, tnc) = w.open()?;
    let ptt = tnc.subscribe_rig_command();
    let built = tnc.last_heartbeat();
    let mut hist = Vec::new();
    // The model.
    let mut levels: HashMap<usize, usize> = HashMap::from([(0, 0)]); // value -> when
    let mut level = 0usize;
    let mut busy = BusyState::NotBusy;
    let mut tx = TransceiverCommand::Receive;
    let mut regs: Vec<String> = Vec::new();
    let mut heard = built;
    let mut newest = 0;
    let mut expect_connect = None;
    let strangers: Vec<String> = (0..3).map(|i| callsign_no(170_000 + w.rng.range(0, 900) * 3 + i)).collect();
    // Values seen while things are moving never go back.
    struct Seen {
        level: usize,
        heard: Instant,
        regs: usize,
    }
    let mut seen = Seen { level: 0, heard: built, regs: 0 };
    fn observe(tnc: &VaraTnc, levels: &HashMap<usize, usize>, regs: &[String], s: &mut Seen) -> R {
        let v = tnc.buffer();
        let Some(&at) = levels.get(&v) else { return bad("level never reported", format!("{v}")) };
        if at < s.level {
            return bad("buffer level went back", format!("to {v}, report {at}, after report {}", s.level));
        }
        s.level = at;
        let h = tnc.last_heartbeat();
        if h < s.heard {
            return bad("heartbeat time went back", "");
        }
        s.heard = h;
        while s.regs < regs.len() {
            let id = StationIdRef::from_str(&regs[s.regs]).unwrap().into_owned();
            if tnc.local_registration(&id) != Registration::Registered {
                break;
            }
            s.regs += 1;
        }
        for r in &regs[..s.regs] {
            let id = StationIdRef::from_str(r).unwrap().into_owned();
            if tnc.local_registration(&id) != Registration::Registered {
                return bad("registration forgotten", r.clone());
            }
        }
        count("values sampled", 1);
        Ok(())
    }
    let chunks = w.rng.range(1, 8);
    let long = w.rng.chance(1, 10);
    for _ in 0..chunks {
        let n = if long { w.rng.range(200, 1500) } else { w.rng.range(1, 30) };
        let mut bytes = Vec::new();
        let mut beats = false;
        let before = Instant::now();
        for _ in 0..n {
            let kind = w.rng.below(9);
            let l = match kind {
                0 => {
                    beats = true;
                    "IAMALIVE".to_string()
                }
                1..=3 => {
                    let v = match w.rng.below(6) {
                        0 => usize::MAX - w.rng.below(3000) as usize,
                        1 => w.rng.next() as usize,
                        2 => (1usize << w.rng.below(64)).wrapping_sub(w.rng.below(2) as usize),
                        _ => w.rng.below(100_000) as usize,
                    };
                    // Every level once, so that a value tells which report it is.
                    if levels.contains_key(&v) {
                        continue;
                    }
                    newest += 1;
                    levels.insert(v, newest);
                    level = v;
                    if v > u32::MAX as usize {
                        count("levels above 2^32", 1);
                    }
                    format!("BUFFER {v}")
                }
                4 => {
                    busy = *w.rng.pick(&[BusyState::Busy, BusyState::NotBusy]);
                    format!("BUSY {}", if busy == BusyState::Busy { "ON" } else { "OFF" })
                }
                5 => {
                    tx = *w.rng.pick(&[TransceiverCommand::Transmit, TransceiverCommand::Receive]);
                    format!("PTT {}", if tx == TransceiverCommand::Transmit { "ON" } else { "OFF" })
                }
                6 => {
                    let c = if !regs.is_empty() && w.rng.chance(1, 4) { w.rng.pick(&regs).clone() } else { callsign(&mut w.rng) };
                    if strangers.contains(&c) {
                        continue;
                    }
                    if !regs.contains(&c) {
                        regs.push(c.clone());
                    }
                    format!("REGISTERED {c}")
                }
                7 => (*w.rng.pick(&["PENDING", "CANCELPENDING", "DISCONNECTED"])).to_string(),
                _ => {
                    let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
                    expect_connect = Some((a.clone(), b.clone()));
                    format!("CONNECTED {a} {b}")
                }
            };
            bytes.extend(l.as_bytes());
            bytes.push(b'\r');
            count("reports", 1);
        }
        hist.extend(&bytes);
        let mode = if bytes.len() > 2000 { w.rng.below(2) * 2 } else { w.rng.below(4) };
        hist.push(mode as u8);
        // An unfinished report in the buffer must change nothing.
        let keep = if w.rng.chance(1, 2) { w.rng.range(0, bytes.len().min(12)) } else { 0 };
        let tail = bytes.split_off(bytes.len() - keep);
        w.send_cut(&mut m, &bytes, mode)?;
        if keep > 0 {
            if w.rng.chance(1, 2) {
                w.settle(&mut m)?;
            }
            observe(&tnc, &levels, &regs, &mut seen)?;
            m.ctl.send(&tail);
        }
        observe(&tnc, &levels, &regs, &mut seen)?;
        let mut why = String::new();
        let r = w.wait(&mut m, "the accessors to show the latest reports", |m| {
            if !m.ctl.out.is_empty() {
                return Ok(false);
            }
            observe(&tnc, &levels, &regs, &mut seen)?;
            why = String::new();
            if tnc.buffer() != level {
                why = format!("buffer level {} instead of {level}", tnc.buffer());
            } else if tnc.busy_state() != busy {
                why = format!("busy state {:?} instead of {busy:?}", tnc.busy_state());
            } else if *ptt.borrow() != tx {
                why = format!("transmit request {:?} instead of {tx:?}", *ptt.borrow());
            } else if let Some(c) = regs.iter().find(|c| tnc.local_registration(&StationIdRef::from_str(c).unwrap()) != Registration::Registered) {
                why = format!("{c} not registered");
            } else if beats && tnc.last_heartbeat() < before {
                why = "heartbeat time not updated".to_string();
            }
            Ok(why.is_empty())
        });
        if let Err(End::Bad(mut b)) = r {
            if !why.is_empty() {
                b.detail = format!("{why}; reports so far end with {:?}", String::from_utf8_lossy(&hist[hist.len().saturating_sub(200)..]));
                b.what = format!("status is not what was reported ({})", b.what);
            }
            return Err(End::Bad(b));
        }
        r?;
        w.settle(&mut m)?;
        let h = tnc.last_heartbeat();
        if h > Instant::now() {
            return bad("heartbeat time in the future", "");
        }
        if !beats && h != heard {
            return bad("heartbeat time changed without a heartbeat", "");
        }
        heard = h;
        for s in &strangers {
            if tnc.local_registration(&StationIdRef::from_str(s).unwrap()) != Registration::Unregistered {
                return bad("registered without a report", s.clone());
            }
        }
        if tnc.remote_registration() != Registration::Unregistered {
            return bad("remote registration without a report", "");
        }
        if tnc.buffer() != level || tnc.busy_state() != busy || *ptt.borrow() != tx {
            return bad("status changed at rest", format!("{} {:?} {:?} instead of {level} {busy:?} {tx:?}", tnc.buffer(), tnc.busy_state(), *ptt.borrow()));
        }
        count("comparisons at rest", 1);
    }
    let _ = expect_connect;
    if m.lines.len() + m.partial().len() > 0 {
        return bad("line nobody sent", format!("{:?}", m.lines));
    }
    drop(ptt);
    drop(tnc);
    w.wind_down(&mut m)?;
    distinct(crate::common::hash64(&hist));
    sample(|| String::from_utf8_lossy(&hist[..hist.len().min(160)]).into_owned());
    Ok(())
}

// ---------------------------------------------------------------- C19

pub const PLAN19: Plan = Plan {
    stream: "C19",
    quick: 4000,
    thorough: 28_000,
    batch: 16,
    parallel: 8,
    rule: "a case is a session with 0-9 outstanding commands or a pending connect, broken by one fault; non-trivial: distinct fault, outstanding count and bytes before it",
    floors: &[("outstanding calls failed", 1000), ("later calls refused", 800), ("connects failed", 100), ("replies before the fault", 300), ("faults in one piece with replies", 500), ("long lines that are no report", 50)],
};

/// Lines that are no known report.
pub const GARBAGE: &[&[u8]] = &[
    b"", b"FOO", b"ok", b" OK", b"OK ", b"OKAY", b"WRONGLY", b"BUFFER", b"BUFFER ", b"BUFFER x", b"BUFFER 1x", b"BUFFER -1",
    b"BUFFER 18446744073709551616", b"BUFFER 99999999999999999999999", b"BUSY", b"BUSY MAYBE", b"PTT", b"PTT ONN", b"PTTON", b"IAMALIVE!",
    b"CONNECTED", b"CONNECTED KC1GSL", b"CONNECTED A B", b"DISCONNECTEDX", b"REGISTERED", b"REGISTERED A!", b"REGISTERED ABCDEFGHIJ",
    b"REGISTERED K\xc91ABC", b"REGISTERED KC1\xb2SL", b"REGISTERED \xc3\x891ABC", b"CONNECTED KC1GSL W1\xaaW", b"CONNECTED K\xe91GSL W1AW",
    b"BUFFER \xb2", b"BUFFER 1\xb9", b"BUFFER \xd9\xa3", b"\xff\xfe\x80", b"OK\xc3\x28", b"BUFFER \xe2\x82", b"\x00", b"OK\x00", b"MISSING SOUNDCARD.", b"CANCELPENDINGS", b"PENDING 1", b"\n", b"OK\n",
    b"REGISTERED K1", b"CONNECTED K1 W1AW", b"CONNECTED KC1GSL W1", b"BUSY O", b"BUSY OF", b"PTT O", b"CANCELP", b"CONNECTED KC1GSL ",
];

/// Whether the modem may send this line: also counts what is left open as a report.
fn is_report(l: &[u8]) -> bool {
    let call = |c: &[u8]| c.len() >= 3 && c.iter().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit());
    let after = |p: &str| l.strip_prefix(p.as_bytes());
    match l {
        b"OK" | b"WRONG" | b"IAMALIVE" | b"BUSY ON" | b"BUSY OFF" | b"PTT ON" | b"PTT OFF" | b"DISCONNECTED" | b"PENDING" | b"CANCELPENDING" => return true,
        _ => {}
    }
    if let Some(n) = after("BUFFER ") {
        return !n.is_empty() && n.iter().all(|b| b.is_ascii_digit()) && std::str::from_utf8(n).unwrap().parse::<u64>().is_ok();
    }
    if let Some(c) = after("REGISTERED ") {
        return call(c);
    }
    if let Some(c) = after("CONNECTED ") {
        let calls: Vec<_> = c.split(|b| *b == b' ').collect();
        return calls.len() == 2 && calls.iter().all(|c| call(c));
    }
    false
}

/// A line that is no report: a fixed one, or a report damaged in one or two places.
pub fn garbage(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 2) {
        return rng.pick(GARBAGE).to_vec();
    }
    loop {
        let mut l = match rng.below(12) {
            0 => "OK".to_string(),
            1 => "WRONG".to_string(),
            2 => "IAMALIVE".to_string(),
            3 => ["BUSY ON", "BUSY OFF"][rng.below(2) as usize].to_string(),
            4 => ["PTT ON", "PTT OFF"][rng.below(2) as usize].to_string(),
            5 => "DISCONNECTED".to_string(),
            6 => ["PENDING", "CANCELPENDING"][rng.below(2) as usize].to_string(),
            7 | 8 => format!("CONNECTED {} {}", callsign(rng), callsign(rng)),
            9 => format!("REGISTERED {}", callsign(rng)),
            _ => format!("BUFFER {}", rng.next() >> rng.below(64)),
        }
        .into_bytes();
        for _ in 0..rng.range(1, 2) {
            let at = rng.below(l.len() as u64 + 1) as usize;
            match rng.below(6) {
                // Cut short.
                0 | 1 => l.truncate(at),
                2 => l.insert(at, *rng.pick(b" \t\n\0AZaz09;.-\x7f\x80\xc3\xff")),
                3 if at < l.len() => {
                    l.remove(at);
                }
                4 if at < l.len() => l[at] = rng.byte(),
                5 if at < l.len() => l[at] = l[at].to_ascii_lowercase(),
                _ => {}
            }
        }
        if !l.contains(&b'\r') && !is_report(&l) {
            return l;
        }
    }
}

pub fn c19(w: &mut W) -> R {
    let (mut m, tnc) = w.open()?;
    let mut hist = Vec::new();
    // Some calls that went well.
    let tnc = Arc::new(tokio::sync::RwLock::new(tnc));
    let call = |w: &W, no: usize| {
        let t = tnc.clone();
        let cmd = Cmd::Call(vec![callsign_no(no)]);
        Call::spawn(&w.rt, async move {
            let t = t.read().await;
            cmd.run(&t).await
        })
    };
    let mut no = w.rng.range(0, 100_000);
    for _ in 0..w.rng.range(0, 2) {
        no += 1;
        let c = call(w, no);
        w.expect(&mut m, &format!("MYCALL {}", callsign_no(no)))?;
        m.send("OK");
        if let Err(e) = w.done(&mut m, "a call to complete", &c)? {
            return bad("accepted command failed", e);
        }
    }
    // Outstanding ones, their lines all at the modem.
    let connecting = w.rng.chance(1, 3);
    let mut connect = None;
    let mut outstanding = Vec::new();
    let mut accepted = false;
    if connecting {
        if w.rng.chance(1, 3) {
            // An earlier connection, whose end the modem never reported.
            let t = tnc.clone();
            let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
            let line = format!("CONNECT {a} {b}");
            let c = Call::spawn(&w.rt, async move {
                let mut t = t.write().await;
                let r = t.connect(StationId::new(a).unwrap(), StationId::new(b).unwrap()).await;
                r.map(drop).map_err(|e| format!("{e:#}"))
            });
            w.expect(&mut m, &line)?;
            m.send("OK");
            m.send(&line.replace("CONNECT", "CONNECTED"));
            if let Err(e) = w.done(&mut m, "the connection to be made", &c)? {
                return bad("connect failed", format!("accepted and reported connected, yet: {e}"));
            }
            w.expect(&mut m, "DISCONNECT")?;
            m.send("OK");
            w.settle(&mut m)?;
            hist.push(b'E');
            count("earlier connections never reported ended", 1);
        }
        let t = tnc.clone();
        let (a, b) = (callsign(&mut w.rng), callsign(&mut w.rng));
        let line = format!("CONNECT {a} {b}");
        connect = Some(Call::spawn(&w.rt, async move {
            let mut t = t.write().await;
            let r = t.connect(StationId::new(a).unwrap(), StationId::new(b).unwrap()).await;
            match r {
                Ok(s) => {
                    std::mem::forget(s);
                    Ok(())
                }
                Err(e) => Err(format!("{e:#}")),
            }
        }));
        w.expect(&mut m, &line)?;
        if w.rng.chance(1, 2) {
            accepted = true;
            m.send("OK");
            w.settle(&mut m)?;
        }
    } else {
        let k = match w.rng.below(4) {
            0 => 0,
            1 => 1,
            _ => w.rng.range(2, 9),
        };
        for _ in 0..k {
            no += 1;
            let c = call(w, no);
            w.expect(&mut m, &format!("MYCALL {}", callsign_no(no)))?;
            outstanding.push(c);
        }
    }
    w.settle(&mut m)?;
    // Replies that arrive before the fault count.
    let good = if outstanding.is_empty() { 0 } else { w.rng.range(0, outstanding.len()) };
    let mut verdicts = Vec::new();
    let mut out = Vec::new();
    for _ in 0..good {
        let ok = w.rng.chance(1, 2);
        verdicts.push(ok);
        out.extend(if ok { &b"OK\r"[..] } else { b"WRONG\r" });
        if w.rng.chance(1, 4) {
            out.extend(noise(&mut w.rng).as_bytes());
            out.push(b'\r');
        }
    }
    let level = 1_000_000 + w.rng.below(1000) as usize;
    out.extend(format!("BUFFER {level}\r").as_bytes());
    let cut = w.rng.below(4);
    // The fault may come in one piece with all of this.
    let at_once = w.rng.chance(1, 3);
    if !at_once {
        w.send_cut(&mut m, &out, cut)?;
    }
    count("replies before the fault", good as u64);
    if !connecting && !at_once {
        // The level is the sign that the replies were processed, whether or not anyone looked.
        let t = tnc.clone();
        w.wait(&mut m, "the buffer level to be reported", |m| Ok(m.ctl.out.is_empty() && t.try_read().map_or(false, |t| t.buffer() == level)))?;
    }
    if !at_once {
        w.settle(&mut m)?;
        out.clear();
    }
    // Something unfinished in front of the fault.
    let partial: &[u8] = *w.rng.pick(&[&b""[..], b"", b"O", b"BUFFER 1", b"CONNECTED KC1GSL W1", b"\xff", b"DISCONNECTED"]);
    let sent_before = m.lines.len();
    let kind = match w.rng.below(5) {
        // A reset would take along what was not read yet.
        1 if at_once => 0,
        k => k,
    };
    if at_once {
        count("faults in one piece with replies", 1);
    }
    let partial = &[&out[..], partial].concat()[..];
    hist.push(kind as u8 | (at_once as u8) << 4);
    hist.extend(partial);
    hist.push(outstanding.len() as u8);
    hist.push(good as u8);
    hist.push(connecting as u8 * 2 + accepted as u8);
    match kind {
        0 => {
            m.ctl.send(partial);
            m.ctl.shutdown_write();
            count("fault: end of the control connection", 1);
        }
        1 => {
            m.ctl.send(partial);
            if w.rng.chance(1, 2) {
                w.settle(&mut m)?;
            }
            m.ctl.reset();
            count("fault: reset of the control connection", 1);
        }
        2 => {
            m.ctl.send(partial);
            m.ctl.close();
            count("fault: control connection closed", 1);
        }
        _ => {
            let mut g = garbage(&mut w.rng);
            if w.rng.chance(1, 6) {
                // Long, with an end that would be a report if it stood alone.
                let n = w.rng.range(1, 400);
                g = (0..n).map(|_| *w.rng.pick(b"XYZ 09\xc3\xff")).collect();
                g[0] = *w.rng.pick(b"XYZ09");
                let end = noise(&mut w.rng);
                let end = *w.rng.pick(&["OK", "WRONG", "DISCONNECTED", &end]);
                if at_once {
                    m.ctl.send(&out);
                    out.clear();
                }
                m.ctl.send(&g);
                w.settle(&mut m)?;
                m.ctl.send(end.as_bytes());
                m.ctl.send(b"\r");
                g.extend(end.as_bytes());
                count("long lines that are no report", 1);
            } else {
                let mut b = out.clone();
                b.extend(&g);
                b.push(b'\r');
                let after = noise(&mut w.rng);
                let after = *w.rng.pick(&["", "", "OK\r", "IAMALIVE\rOK\r", &after]);
                b.extend(after.as_bytes());
                let mode = if at_once { 0 } else { w.rng.below(4) };
                w.send_cut(&mut m, &b, mode)?;
            }
            hist.extend(&g);
            count("fault: not a report", 1);
            distinct_in("kinds of garbage", crate::common::hash64(&g));
        }
    }
    // Everything outstanding ends.
    for (i, c) in outstanding.iter().enumerate() {
        let r = w.done(&mut m, &format!("outstanding call {i} of {} to end after the fault", outstanding.len()), c)?;
        match verdicts.get(i) {
            Some(ok) => {
                if r.is_ok() != *ok {
                    return bad("reply from before the fault lost", format!("call {i} was answered {ok} and returned {r:?}"));
                }
            }
            None => {
                if r.is_ok() {
                    return bad("success without a reply", format!("call {i} of {}, {good} answered", outstanding.len()));
                }
                count("outstanding calls failed", 1);
            }
        }
    }
    if let Some(c) = &connect {
        let r = w.done(&mut m, "the pending connect to end after the fault", c)?;
        if r.is_ok() {
            return bad("connected without being told so", format!("accepted: {accepted}"));
        }
        count("connects failed", 1);
    }
    if m.ctl.s.is_some() {
        w.wait(&mut m, "the control connection to be closed after the fault", |m| Ok(m.ctl.closed.is_some()))?;
        count("control connections seen closed", 1);
    }
    w.settle(&mut m)?;
    // Later calls are refused.
    for _ in 0..w.rng.range(1, 3) {
        no += 1;
        let c = call(w, no);
        if w.done(&mut m, "a call after the fault to end", &c)?.is_ok() {
            return bad("success after the fault", "");
        }
        count("later calls refused", 1);
    }
    if w.rng.chance(1, 2) {
        let t = tnc.clone();
        let c = Call::spawn(&w.rt, async move {
            let mut t = t.write().await;
            let r = t.connect(StationId::new("KC1GSL").unwrap(), StationId::new("W1AW").unwrap()).await;
            r.is_ok()
        });
        if w.done(&mut m, "a connect after the fault to end", &c)? {
            return bad("connected after the fault", "");
        }
        count("connects failed", 1);
    }
    w.settle(&mut m)?;
    if m.lines.len() != sent_before || !m.partial().is_empty() {
        return bad("sent after the fault", format!("{:?} {:?}", &m.lines[sent_before..], m.partial()));
    }
    drop(outstanding);
    drop(connect);
    drop(tnc);
    if m.ctl.s.is_none() {
        m.ctl.closed = Some(Closed::Eof);
    }
    w.wind_down(&mut m)?;
    distinct(crate::common::hash64(&hist));
    sample(|| format!("fault {kind} after {good} of {} replies, connecting {connecting}, partial {:?}", verdicts.len(), String::from_utf8_lossy(partial)));
    Ok(())
}

// ---------------------------------------------------------------- C31

pub const PLAN31: Plan = Plan {
    stream: "C31",
    quick: 400,
    thorough: 6000,
    batch: 10,
    parallel: 8,
    rule: "a case is a session with reports carrying bytes that are not ASCII where a call sign or a number is expected; non-trivial: distinct bytes",
    floors: &[("reports with bytes that are not ASCII", 100)],
};

/// Bytes that are no ASCII close to where the reports' texts are taken from them. Whatever becomes
/// of them, every text handed out or logged must be UTF-8.
pub fn c31(w: &mut W) -> R {
    let (mut m, tnc) = w.open()?;
    let mut texts = 0;
    let mut look = |tnc: &VaraTnc| -> R {
        let t = format!("{tnc:?} {tnc:#?}");
        texts += 1;
        match std::str::from_utf8(t.as_bytes()) {
            Ok(_) => Ok(()),
            Err(_) => bad("not UTF-8", "the handle's debug rendering"),
        }
    };
    let mut hist = Vec::new();
    for _ in 0..w.rng.range(0, 6) {
        let l = match w.rng.below(4) {
            0 => format!("REGISTERED {}", callsign(&mut w.rng)),
            1 => format!("BUFFER {}", w.rng.next()),
            2 => format!("CONNECTED {} {}", callsign(&mut w.rng), callsign(&mut w.rng)),
            _ => "PTT ON".to_string(),
        };
        hist.extend(l.as_bytes());
        m.send(&l);
    }
    w.settle(&mut m)?;
    look(&tnc)?;
    let mut l = match w.rng.below(3) {
        0 => format!("REGISTERED {}", callsign(&mut w.rng)),
        1 => format!("BUFFER {}", w.rng.next()),
        _ => format!("CONNECTED {} {}", callsign(&mut w.rng), callsign(&mut w.rng)),
    }
    .into_bytes();
    let first = l.iter().position(|b| *b == b' ').unwrap() + 1;
    for _ in 0..w.rng.range(1, 3) {
        let i = w.rng.range(first, l.len());
        let b = match w.rng.below(4) {
            0 => vec![w.rng.range(0x80, 0xFF) as u8],
            1 => vec![*w.rng.pick(b"\xaa\xb2\xb3\xb5\xb9\xba\xc0\xc9\xd8\xdf\xe9\xff")],
            2 => "\u{663}".as_bytes().to_vec(),
            _ => "\u{c9}\u{ff21}".as_bytes()[..w.rng.range(1, 5)].to_vec(),
        };
        let cut = if w.rng.chance(1, 2) && i < l.len() { i + 1 } else { i };
        l.splice(i..cut, b);
    }
    hist.extend(&l);
    l.push(b'\r');
    let mode = w.rng.below(4);
    w.send_cut(&mut m, &l, mode)?;
    w.settle(&mut m)?;
    look(&tnc)?;
    m.send("IAMALIVE");
    w.settle(&mut m)?;
    look(&tnc)?;
    drop(tnc);
    w.settle(&mut m)?;
    count("reports with bytes that are not ASCII", 1);
    count("texts examined", texts);
    distinct(crate::common::hash64(&hist));
    sample(|| crate::common::hex(&hist[..hist.len().min(60)]));
    Ok(())
}
