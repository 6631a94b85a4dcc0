//! C31: drives every part of the library that handles received bytes without a socket, one case
//! after the other on one thread, under Miri and under AddressSanitizer. What the instrumentation
//! reports is the verdict; this program adds a monitor for texts that are not UTF-8. Everything
//! else it sees is for other properties to judge.
#![allow(dead_code)]

#[path = "../../common/common.rs"]
mod common;
#[path = "../../pure/src/fbbchk.rs"]
mod fbbchk;
#[path = "../../pure/src/fbbref.rs"]
mod fbbref;
#[path = "../../pure/src/gen.rs"]
mod gen;
#[path = "../../pure/src/lzref.rs"]
mod lzref;
#[path = "../../pure/src/misc.rs"]
mod misc;
#[path = "../../io/src/rigs.rs"]
mod rigs;

/// What the rig scripts need of the other harness.
mod world {
    use crate::common::Bad;
    pub enum End {
        Bad(Bad),
        Inc(String),
    }
    pub type R<T = ()> = Result<T, End>;
    pub fn bad<T>(what: impl Into<String>, detail: impl Into<String>) -> R<T> {
        Err(End::Bad(Bad { what: what.into(), detail: detail.into() }))
    }
    pub fn inc<T>(why: impl Into<String>) -> R<T> {
        Err(End::Inc(why.into()))
    }
    pub fn count(_: &str, _: u64) {}
    pub fn maximum(_: &str, _: u64) {}
    pub fn distinct(_: u64) {}
    pub fn distinct_in(_: &str, _: u64) {}
    pub fn sample(_: impl FnOnce() -> String) {}
}

pub struct Plan {
    pub stream: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub batch: u64,
    pub parallel: usize,
    pub rule: &'static str,
    pub floors: &'static [(&'static str, u64)],
}

use common::*;
use plusendi::verif_hooks as h;
use plusendi::verif_hooks::fbb::Outcome;
use plusendi::{StationId, StationIdRef};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
struct Seen {
    counts: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    bad: Vec<(u64, String)>,
    case: u64,
    texts: u64,
}

impl Seen {
    fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n
    }
    /// A text the library handed out, looked at as bytes.
    fn text(&mut self, what: &str, b: &[u8]) {
        self.texts += 1;
        if std::str::from_utf8(b).is_err() {
            self.bad.push((self.case, format!("not UTF-8: {what}: {}", short_hex(b))));
        }
    }
}

/// A heap block of exactly that size, so that one byte beyond it is somebody else's.
fn exact(b: &[u8]) -> Box<[u8]> {
    b.to_vec().into_boxed_slice()
}

/// Renders every field of everything logged, and little else: the interpreter is slow.
struct Plain(std::sync::Arc<std::sync::Mutex<String>>);
struct Fields<'a>(&'a mut String);
impl tracing::field::Visit for Fields<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        let _ = f;
        self.0.push_str(v);
        self.0.push(' ');
    }
}
impl tracing::Subscriber for Plain {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Fields(&mut self.0.lock().unwrap()));
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Fields(&mut self.0.lock().unwrap()));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Fields(&mut self.0.lock().unwrap()));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn log<T>(on: bool, s: &mut Seen, f: impl FnOnce() -> T) -> Result<T, String> {
    if !on {
        return sut(f);
    }
    let text = std::sync::Arc::<std::sync::Mutex<String>>::default();
    let r = tracing::subscriber::with_default(Plain(text.clone()), || sut(f));
    let text = std::mem::take(&mut *text.lock().unwrap_or_else(|e| e.into_inner()));
    s.text("log", text.as_bytes());
    s.count("runs with logging on", 1);
    r
}

fn codec(s: &mut Seen, rng: &mut Rng, small: bool) {
    let max = if small { 120 } else { 3000 };
    let on = rng.chance(1, 8);
    if rng.chance(1, 2) {
        let (_, t) = gen::text(rng, max);
        let t = exact(&t[..t.len().min(max)]);
        s.distinct.insert(hash64(&t));
        if let Ok(c) = log(on, s, || h::lzhuf::encode(&t)) {
            let c = exact(&c);
            let mut out = vec![0u8; t.len()].into_boxed_slice();
            let _ = log(on, s, || h::lzhuf::decode(&c, &mut out));
            s.count("round trips", 1);
        }
    } else {
        let mut d = match rng.below(3) {
            0 => rng.bytes(rng.clone().size(max)),
            1 => (0..rng.size(max)).map(|_| if rng.chance(1, 6) { 1 << rng.below(8) } else { 0 }).collect(),
            _ => {
                let (_, mut t) = gen::tokens(rng);
                t.truncate(max);
                lzref::write_tokens(&t).bytes
            }
        };
        if rng.chance(1, 2) && !d.is_empty() {
            let i = rng.below(d.len() as u64) as usize;
            d[i] ^= 1 << rng.below(8);
        }
        d.truncate(max);
        let d = exact(&d);
        // Sizes that end inside a repeat, too.
        let n = rng.size(if small { 300 } else { 20_000 });
        let mut out = vec![0u8; n].into_boxed_slice();
        s.distinct.insert(hash64(&d) ^ n as u64);
        let _ = log(on, s, || h::lzhuf::decode(&d, &mut out));
        s.count("hostile streams", 1);
    }
}

fn readers(s: &mut Seen, rng: &mut Rng, small: bool) {
    let p = rng.below(fbbchk::PARSERS.len() as u64) as usize;
    let mut d = fbbchk::hostile(rng, p);
    if rng.chance(1, 4) {
        d = fbbchk::good_input(rng, p).0;
    }
    if small {
        d.truncate(400);
    }
    if rng.chance(1, 3) && !d.is_empty() {
        // A byte that is no ASCII where text is expected.
        let i = rng.below(d.len().min(20) as u64) as usize;
        d[i] = *rng.pick(&[0x80u8, 0xB2, 0xC3, 0xE9, 0xFF]);
        if p == 0 && d.len() > 2 && rng.chance(1, 2) {
            d[1] = d[1].max(4);
        }
    }
    let d = exact(&d);
    s.distinct.insert(hash64(&d) ^ (p as u64) << 60);
    let on = rng.chance(1, 6);
    s.count("inputs read", 1);
    match p {
        0 => {
            if let Ok(Outcome::Parsed(m, _)) = log(on, s, || h::fbb::message(&d)) {
                s.text("title", &m.title);
                s.count("messages accepted", 1);
                if m.uncompressed_size < if small { 2000 } else { 1 << 20 } {
                    let _ = log(on, s, || h::fbb::message_content(&d));
                    s.count("messages decompressed", 1);
                }
            }
        }
        1 => {
            if let Ok(Outcome::Parsed(m, _)) = log(on, s, || h::fbb::fbb_proposal(&d)) {
                for t in [&m.message_id, &m.addressing.sender, &m.addressing.mbo, &m.addressing.recipient] {
                    s.text("field of a proposal", t);
                }
                s.count("proposals accepted", 1);
            }
        }
        2 => {
            if let Ok(Outcome::Parsed(m, _)) = log(on, s, || h::fbb::winlink_proposal(&d)) {
                s.text("field of a proposal", &m.message_id);
                if let Some(a) = &m.addressing {
                    for t in [&a.sender, &a.mbo, &a.recipient] {
                        s.text("field of a proposal", t);
                    }
                }
                s.count("proposals accepted", 1);
            }
        }
        _ => {
            let f = fbbchk::PARSERS[p].1;
            let _ = log(on, s, || f(&d));
        }
    }
}

/// A message whose title has a byte that is no ASCII, checksums and all else in order.
fn titles(s: &mut Seen, rng: &mut Rng) {
    let mut title: Vec<u8> = (0..rng.range(0, 20)).map(|_| rng.range(0x20, 0x7E) as u8).collect();
    if rng.chance(3, 4) {
        let i = rng.below(title.len() as u64 + 1) as usize;
        title.insert(i, rng.range(0x80, 0xFF) as u8);
    }
    let payload = rng.bytes(rng.clone().range(0, 20));
    let wire = fbbref::build(&title, "0", payload.len() as u32, &payload, &[payload.len() + 6]);
    let d = exact(&wire);
    let on = rng.chance(1, 4);
    s.count("titles read", 1);
    if let Ok(Outcome::Parsed(m, _)) = log(on, s, || h::fbb::message(&d)) {
        s.text("title", &m.title);
        s.count("messages accepted", 1);
    }
}

fn lines(s: &mut Seen, rng: &mut Rng) {
    let mut f = |rng: &mut Rng| -> Vec<u8> {
        let n = rng.range(1, 6);
        (0..n)
            .flat_map(|_| match rng.below(5) {
                0 => vec![rng.range(0x80, 0xFF) as u8],
                1 => "é".as_bytes().to_vec(),
                _ => vec![rng.range(b'A' as usize, b'Z' as usize) as u8],
            })
            .collect()
    };
    let (a, b, c, d) = (f(rng), f(rng), f(rng), f(rng));
    let fa = rng.chance(1, 2);
    let mut l = if fa { b"FB P ".to_vec() } else { b"FC EM ".to_vec() };
    let fields: [&[u8]; 4] = if fa { [&a, &b, &c, &d] } else { [&a, b"12", b"7", &b] };
    for x in fields {
        l.extend(x);
        l.push(b' ');
    }
    if fa {
        l.extend(b"12\r");
    } else {
        l.extend(&c);
        l.push(b' ');
        l.extend(&d);
        l.push(b'\r');
    }
    let l = exact(&l);
    s.count("lines read", 1);
    s.distinct.insert(hash64(&l));
    let on = rng.chance(1, 4);
    if fa {
        if let Ok(Outcome::Parsed(m, _)) = log(on, s, || h::fbb::fbb_proposal(&l)) {
            for t in [&m.message_id, &m.addressing.sender, &m.addressing.mbo, &m.addressing.recipient] {
                s.text("field of a proposal", t);
            }
            s.count("proposals accepted", 1);
        }
    } else if let Ok(Outcome::Parsed(m, _)) = log(on, s, || h::fbb::winlink_proposal(&l)) {
        s.text("field of a proposal", &m.message_id);
        for a in m.addressing.iter() {
            for t in [&a.sender, &a.mbo, &a.recipient] {
                s.text("field of a proposal", t);
            }
        }
        s.count("proposals accepted", 1);
    }
}

fn ids(s: &mut Seen, rng: &mut Rng) {
    let mut t = misc::id(rng).as_str().to_string();
    if rng.chance(1, 2) {
        t = t.to_lowercase();
    }
    if rng.chance(1, 2) {
        let i = rng.below(t.len() as u64 + 1) as usize;
        t.insert(i, *rng.pick(&['é', 'ß', 'ı', 'K', '1', ' ', '\u{10ffff}', 'ſ']));
    }
    s.distinct.insert(hash64(t.as_bytes()));
    s.count("ids tried", 1);
    if let Ok(Ok(i)) = sut(|| StationId::new(t.clone())) {
        s.text("station id", i.as_str().as_bytes());
        s.text("station id", i.to_string().as_bytes());
        s.text("station id", format!("{i:?}").as_bytes());
        let owned: Box<str> = i.clone().into_boxed_ref().as_str().into();
        s.text("station id", owned.as_bytes());
        s.count("ids accepted", 1);
    }
    if let Ok(Ok(i)) = sut(|| StationIdRef::from_str(&t).map(|x| x.into_owned())) {
        s.text("station id", i.as_str().as_bytes());
    }
    let (c, _) = misc::command(rng);
    if let Ok(t) = sut(|| c.to_string()) {
        s.text("command", t.as_bytes());
        s.count("commands written", 1);
    }
}

fn errors(s: &mut Seen, rng: &mut Rng) {
    use nom::error::ErrorKind;
    let v: Vec<Box<[u8]>> = (0..rng.range(1, 3))
        .map(|_| {
            let b = match rng.below(3) {
                0 => rng.bytes(rng.clone().size(40)),
                1 => {
                    let t = "CONNECTED é€𝄞".as_bytes();
                    t[..rng.range(0, t.len())].to_vec()
                }
                _ => b"REGISTERED K\xe9".to_vec(),
            };
            exact(&b)
        })
        .collect();
    let e: Vec<(&[u8], ErrorKind)> = v.iter().map(|b| (&b[..], ErrorKind::Tag)).collect();
    if let Ok((_, es)) = sut(|| h::parser::convert_verbose(&e)) {
        for e in es {
            for t in e.text.iter().chain([&e.display, &e.debug, &e.kind]) {
                s.text("rendered error", t.as_bytes());
            }
        }
    }
    let _ = sut(|| h::parser::convert_plain(&v[0], ErrorKind::Tag)).map(|(_, e)| s.text("rendered error", e.display.as_bytes()));
    let _ = sut(|| h::crc16::crc16(&v[0]));
    s.count("errors rendered", 1);
}

fn rig(s: &mut Seen, rng: &mut Rng) {
    let r = rng.clone();
    let on = rng.chance(1, 4);
    let faulty = rng.chance(1, 2);
    s.distinct.insert(r.clone().next());
    let _ = log(on, s, || if faulty { rigs::c27(r) } else { rigs::c26(r) }.is_ok());
    s.count("rig scripts", 1);
}

fn main() {
    common::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let (seed, from, to, small): (u64, u64, u64, bool) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] != "large");
    if small {
        rigs::LONGEST.store(40, std::sync::atomic::Ordering::Relaxed);
    }
    let mut s = Seen::default();
    for case in from..to {
        if a[4] == "rig" && case % 8 != 7 || a[4] == "small" && case % 8 == 7 {
            continue;
        }
        println!("BEGIN {case}");
        let mut rng = Rng::of(seed, "C31", case);
        s.case = case;
        let rng = &mut rng;
        match case % 8 {
            0 | 1 => codec(&mut s, rng, small),
            2 => readers(&mut s, rng, small),
            3 => titles(&mut s, rng),
            4 => lines(&mut s, rng),
            5 => ids(&mut s, rng),
            6 => errors(&mut s, rng),
            _ => rig(&mut s, rng),
        }
        if s.samples.len() < 3 && rng.chance(1, 4) {
            s.samples.push(format!("case {case}: {} texts so far", s.texts));
        }
        if s.bad.len() > 3 {
            break;
        }
    }
    for (c, b) in &s.bad {
        println!("BAD {c} {}", b.replace('\n', " "));
    }
    for (k, v) in &s.counts {
        println!("COUNT {v} {k}");
    }
    println!("COUNT {} texts examined", s.texts);
    println!("DISTINCT {}", s.distinct.len());
    println!("END");
}
