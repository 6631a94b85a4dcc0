//! C07..C13: B2 messages and FBB control lines.
use crate::common::*;
use crate::fbbref::{self, Verdict};
use crate::{gen, lzref};
use plusendi::verif_hooks::fbb::{self as sutfbb, Outcome};
use std::sync::Arc;

// ------------------------------------------------------------------ logging

#[derive(Clone, Default)]
pub struct Sink(Arc<std::sync::Mutex<Vec<u8>>>);

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Runs `f` with everything logged, as a user with the log level turned up would; returns the log.
pub fn logged<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    logged_at(tracing::Level::TRACE, f)
}

pub fn logged_at<T>(level: tracing::Level, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    let sink = Sink::default();
    let w = sink.clone();
    let sub = tracing_subscriber::fmt().with_max_level(level).with_ansi(false).with_writer(move || w.clone()).finish();
    let r = tracing::subscriber::with_default(sub, f);
    let log = sink.0.lock().unwrap().clone();
    (r, log)
}

/// Calls a parser, with logging on in some cases; a panic is a violation.
fn call<T>(ctx: &Ctx, what: &str, data: &[u8], log: bool, f: impl FnOnce(&[u8]) -> T) -> Result<T, Bad> {
    let r = if log {
        ctx.count("parses with logging on", 1);
        let (r, text) = logged(|| sut(|| f(data)));
        if std::str::from_utf8(&text).is_err() {
            return bad("the log is not valid text", format!("{what}: {}", short_hex(data)));
        }
        r
    } else {
        sut(|| f(data))
    };
    r.or_else(|p| bad(format!("{what} panicked"), format!("{p}; logging {}; input {} bytes {}", if log { "on" } else { "off" }, data.len(), short_hex(data))))
}

// ------------------------------------------------------------------ messages

fn same(m: &sutfbb::Message, r: &fbbref::Msg) -> bool {
    m.title == r.title && m.offset == r.offset && m.crc16 == r.crc16 && m.uncompressed_size == r.size && m.payload == r.payload && m.block_lengths == r.blocks
}

fn title(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.range(0, max);
    (0..n).map(|_| if rng.chance(1, 8) { *rng.pick(b" ~!") } else { rng.range(0x20, 0x7E) as u8 }).collect()
}

fn offset(rng: &mut Rng) -> String {
    let v = match rng.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => u32::MAX - rng.below(20) as u32,
        3 => rng.below(70_000) as u32,
        4 => 1u32 << rng.below(32),
        _ => rng.next() as u32,
    };
    let s = v.to_string();
    if rng.chance(1, 5) {
        format!("{}{}", "0".repeat(rng.range(1, 6)), s)
    } else {
        s
    }
}

fn splits(rng: &mut Rng, mut n: usize) -> Vec<usize> {
    let mut v = vec![];
    let style = rng.below(4);
    let mut first = true;
    while n > 0 {
        let lo = if first { 6 } else { 1 };
        let k = match style {
            0 => 256,
            1 => *rng.pick(&[1, 2, 255, 256]),
            2 => 250,
            _ => rng.range(1, 256),
        };
        let k = k.max(lo).min(n);
        v.push(k);
        n -= k;
        first = false;
    }
    v
}

pub struct Made {
    pub wire: Vec<u8>,
    pub msg: fbbref::Msg,
    pub text: Option<Vec<u8>>,
}

/// A well-formed message; half of them with a genuinely compressed content.
pub fn make(rng: &mut Rng, max: usize) -> Made {
    let (size, payload, text) = if rng.chance(1, 2) {
        let t = gen::text(rng, max).1;
        let toks = lzref::tokenize(&t);
        (t.len() as u32, lzref::write_tokens(&toks).bytes, Some(t))
    } else {
        let n = rng.size(max);
        let p = if rng.chance(1, 6) { vec![*rng.pick(&[0u8, 1, 2, 4, 255]); n] } else { rng.bytes(n) };
        (if rng.chance(1, 4) { rng.next() as u32 } else { rng.below(100_000) as u32 }, p, None)
    };
    let off = offset(rng);
    let max_title = 88 - 2 - off.len();
    let t = if rng.chance(1, 8) { (0..max_title).map(|_| rng.range(0x20, 0x7E) as u8).collect() } else { title(rng, max_title) };
    let sp = splits(rng, payload.len() + 6);
    let wire = fbbref::build(&t, &off, size, &payload, &sp);
    let mut blocks = sp;
    blocks[0] -= 6;
    let covered: Vec<u8> = size.to_le_bytes().iter().copied().chain(payload.iter().copied()).collect();
    let msg = fbbref::Msg { title: t, offset: off.parse().unwrap(), crc16: fbbref::crc(&covered), size, payload, blocks };
    Made { wire, msg, text }
}

/// Positions of the parts of a well-formed message, for targeted damage.
struct Layout {
    header: (usize, usize),
    /// (tag position, content start, content end)
    blocks: Vec<(usize, usize, usize)>,
    eot: usize,
}

fn layout(w: &[u8]) -> Layout {
    let hl = w[1] as usize;
    let mut p = 2 + hl;
    let mut blocks = vec![];
    while w[p] == 2 {
        let n = if w[p + 1] == 0 { 256 } else { w[p + 1] as usize };
        blocks.push((p, p + 2, p + 2 + n));
        p += 2 + n;
    }
    Layout { header: (2, 2 + hl), blocks, eot: p }
}

fn fix_sum(w: &mut [u8], l: &Layout) {
    let mut s = 0u8;
    for &(_, a, b) in &l.blocks {
        s = w[a..b].iter().fold(s, |x, &y| x.wrapping_add(y));
    }
    w[l.eot + 1] = s.wrapping_neg();
}

fn fix_crc(w: &mut [u8], l: &Layout) {
    let body: Vec<u8> = l.blocks.iter().flat_map(|&(_, a, b)| w[a..b].to_vec()).collect();
    let c = fbbref::crc(&body[2..]).to_le_bytes();
    let a = l.blocks[0].1;
    w[a] = c[0];
    w[a + 1] = c[1];
}

/// Damages a well-formed message in one of many ways; says which.
fn damage(rng: &mut Rng, w: &mut Vec<u8>) -> &'static str {
    let l = layout(w);
    if l.blocks.is_empty() {
        let n = w.len();
        w[n - 1] ^= 1 << rng.below(8);
        return "checksum of an empty message";
    }
    let (fa, fb) = {
        let b = rng.pick(&l.blocks);
        (b.1, b.2)
    };
    match rng.below(16) {
        0 => {
            let i = rng.range(fa, fb - 1);
            w[i] ^= 1 << rng.below(8);
            "content bit"
        }
        1 => {
            let i = rng.range(fa, fb - 1);
            w[i] = w[i].wrapping_add(rng.range(1, 255) as u8);
            fix_sum(w, &l);
            "content, checksum made to fit"
        }
        2 => {
            // Two bytes changed so that the checksum still fits.
            let i = rng.range(fa, fb - 1);
            let b = rng.pick(&l.blocks);
            let j = rng.range(b.1, b.2 - 1);
            let d = rng.range(1, 255) as u8;
            w[i] = w[i].wrapping_add(d);
            w[j] = w[j].wrapping_sub(d);
            "content, changes that cancel in the checksum"
        }
        3 => {
            let n = w.len();
            w[n - 1] = w[n - 1].wrapping_add(rng.range(1, 255) as u8);
            "checksum"
        }
        4 => {
            let i = rng.range(fa, fb - 1);
            w[i] = w[i].wrapping_add(rng.range(1, 255) as u8);
            fix_crc(w, &l);
            "content, CRC made to fit"
        }
        5 => {
            let i = rng.range(fa, fb - 1);
            w[i] = w[i].wrapping_add(rng.range(1, 255) as u8);
            fix_crc(w, &l);
            fix_sum(w, &l);
            "content, both made to fit (still good)"
        }
        6 => {
            let a = l.blocks[0].1;
            let i = a + rng.below(6) as usize;
            w[i] ^= 1 << rng.below(8);
            if rng.chance(1, 2) {
                fix_sum(w, &l);
            }
            "CRC or size field"
        }
        7 => {
            let i = rng.range(l.header.0, l.header.1 - 1);
            w[i] = *rng.pick(&[0u8, 1, 0x1F, 0x7F, 0x80, 0xC3, 0xFF, b'0', b'9', b'a', b' ', b'-', b'+']);
            "header byte"
        }
        8 => {
            w[1] = if rng.chance(1, 3) { *rng.pick(&[0u8, 1, 2, 3, 88, 89, 255]) } else { w[1].wrapping_add(rng.range(0, 4) as u8).wrapping_sub(2) };
            "header length"
        }
        9 => {
            let b = rng.pick(&l.blocks).0;
            w[b] = rng.byte();
            "block tag"
        }
        10 => {
            let b = rng.pick(&l.blocks).0 + 1;
            w[b] = w[b].wrapping_add(rng.range(1, 255) as u8);
            "block length"
        }
        11 => {
            let i = rng.below(w.len() as u64) as usize;
            w.remove(i);
            "byte lost"
        }
        12 => {
            let i = rng.below(w.len() as u64 + 1) as usize;
            w.insert(i, rng.byte());
            "byte added"
        }
        13 => {
            let i = rng.below(w.len() as u64 - 1) as usize;
            w.swap(i, i + 1);
            "neighbours swapped"
        }
        14 => {
            // A block repeated, dropped or exchanged with the next.
            let k = rng.below(l.blocks.len() as u64) as usize;
            let (t, _, e) = l.blocks[k];
            let part = w[t..e].to_vec();
            if rng.chance(1, 2) {
                w.splice(e..e, part);
                "block repeated"
            } else {
                w.splice(t..e, []);
                "block lost"
            }
        }
        _ => {
            let n = rng.below(w.len() as u64) as usize;
            w.truncate(n);
            "cut short"
        }
    }
}

/// C07: nothing is accepted that is not well-formed with matching checksum and CRC, and what is
/// accepted is reported as it is.
pub fn c07(ctx: Arc<Ctx>) -> ! {
    ctx.run("damaged", ctx.n(60_000, 800_000), 60, |ctx, _, rng| {
        let mut w = make(rng, 700).wire;
        let mut how = damage(rng, &mut w);
        if rng.chance(1, 5) && w.len() > 12 && matches!(fbbref::message(&w), Verdict::Good(..)) {
            how = damage(rng, &mut w);
        }
        if rng.chance(1, 4) {
            w.extend(rng.bytes(rng.clone().range(1, 5)));
        }
        soundness(ctx, how, &w, rng.chance(1, 10))
    });
    // Damage that only shows in messages of many blocks or of more than 64 KiB.
    ctx.run("damaged, large", ctx.n(300, 3000), 60, |ctx, _, rng| {
        let most = if rng.chance(1, 2) { 1200 } else { 90_000 };
        let n = rng.range(200, most);
        let payload = rng.bytes(n);
        let mut sp = vec![6];
        sp.extend(if n < 1300 && rng.chance(1, 2) { vec![1; n] } else { splits(rng, n) });
        let blocks = sp.len() as u64;
        let mut w = fbbref::build(b"large", "0", rng.below(1 << 20) as u32, &payload, &sp);
        let how = damage(rng, &mut w);
        ctx.maximum("most blocks in a damaged message", blocks);
        ctx.maximum("longest damaged message", w.len() as u64);
        if blocks > 255 {
            ctx.count("damaged messages of over 255 blocks", 1);
        }
        soundness(ctx, how, &w, rng.chance(1, 10))
    });
    ctx.run("made-up", ctx.n(40_000, 500_000), 60, |ctx, _, rng| {
        // Frames assembled part by part from likely and unlikely pieces.
        let mut w = vec![1u8];
        let t = title(rng, 30);
        let o: Vec<u8> = match rng.below(9) {
            // Too large, though its last digits alone would not be.
            7 => format!("{}{:010}", rng.range(1, 9), rng.next() as u32).into_bytes(),
            8 => format!("{}{:0k$}", rng.range(1, 9999), rng.below(1000), k = rng.range(10, 24)).into_bytes(),
            0 => vec![],
            1 => b"4294967296".to_vec(),
            2 => b"99999999999999999999".to_vec(),
            3 => b"-1".to_vec(),
            4 => b"+1".to_vec(),
            5 => b"1 ".to_vec(),
            _ => offset(rng).into_bytes(),
        };
        let mut h = t;
        for part in [&[0u8][..], &o[..], &[0u8][..]] {
            if rng.chance(19, 20) {
                h.extend(part);
            }
            if rng.chance(1, 40) {
                h.push(rng.byte());
            }
        }
        w.push(h.len() as u8);
        w.extend(&h);
        let mut body = vec![];
        let n = rng.range(0, 3);
        let total = rng.range(0, 40);
        let content = rng.bytes(total);
        let size = [0u8; 4];
        let mut all = fbbref::crc(&[&size[..], &content[..]].concat()).to_le_bytes().to_vec();
        all.extend(size);
        all.extend(&content);
        let mut at = 0;
        for i in 0..n {
            let k = if i + 1 == n { all.len() - at } else { rng.range(0, all.len() - at) };
            if k == 0 {
                continue;
            }
            w.push(2);
            w.push(k as u8);
            w.extend(&all[at..at + k]);
            body.extend(&all[at..at + k]);
            at += k;
        }
        w.push(4);
        let s = body.iter().fold(0u8, |a, &b| a.wrapping_add(b)).wrapping_neg();
        w.push(if rng.chance(1, 6) { s.wrapping_add(rng.byte()) } else { s });
        soundness(ctx, "assembled", &w, rng.chance(1, 10))
    });
    ctx.require("damaged messages of over 255 blocks", 100);
    ctx.require("rejected only by the CRC", 300);
    ctx.require("rejected only by the checksum", 300);
    ctx.require("accepted", 300);
    ctx.finish(
        "exploration",
        "a case is a well-formed message damaged in one of 16 ways (bits, cancelling changes, checks made to fit, structure), or a frame assembled from odd parts; acceptance and every reported field are compared with an independent reader; non-trivial if the structure was intact, distinct by content",
        &["a message with no data block at all is accepted as an empty one, as the code always did"],
    )
}

fn soundness(ctx: &Ctx, how: &'static str, w: &[u8], log: bool) -> Result<(), Bad> {
    let r = fbbref::message(w);
    let s = call(ctx, "reading a message", w, log, |d| sutfbb::message(d))?;
    ctx.eval(1);
    ctx.count(&format!("damage: {how}"), 1);
    match (&s, &r) {
        (Outcome::Parsed(m, used), Verdict::Good(g, n)) => {
            ctx.count("accepted", 1);
            ctx.distinct(hash64(w));
            if !same(m, g) || used != n {
                return bad("an accepted message is reported wrongly", format!("{how}: {}: {m:?} using {used}, should be {g:?} using {n}", short_hex(w)));
            }
        }
        (Outcome::Parsed(m, used), other) => {
            let other = match other {
                Verdict::Short | Verdict::Doomed => "incomplete",
                _ => "malformed or corrupted",
            };
            return bad("a bad message was accepted", format!("{how}: {} bytes {} is {other}, yet read as {m:?} using {used}", w.len(), hex(&w[..w.len().min(400)])));
        }
        (_, Verdict::Bad) => {
            ctx.distinct(hash64(w));
            ctx.count("rejected", 1);
            // Which of the two checks stood in the way?
            if let Some((sum, crc)) = checks(w) {
                if sum && !crc {
                    ctx.count("rejected only by the CRC", 1);
                } else if crc && !sum {
                    ctx.count("rejected only by the checksum", 1);
                }
            }
        }
        _ => ctx.count("incomplete or other", 1),
    }
    ctx.sample(|| format!("{how}: {} -> {}", short_hex(w), match r { Verdict::Good(..) => "good", Verdict::Bad => "bad", _ => "short" }));
    Ok(())
}

/// For a structurally complete message with a good header: does the checksum fit, does the CRC?
fn checks(w: &[u8]) -> Option<(bool, bool)> {
    let hl = *w.get(1)? as usize;
    if hl > 88 {
        return None;
    }
    fbbref::header(w.get(2..2 + hl)?)?;
    let mut p = 2 + hl;
    let mut body = vec![];
    loop {
        match *w.get(p)? {
            2 => {
                let n = *w.get(p + 1)? as usize;
                let n = if n == 0 { 256 } else { n };
                body.extend(w.get(p + 2..p + 2 + n)?);
                p += 2 + n;
            }
            4 => {
                let s = body.iter().fold(*w.get(p + 1)?, |a: u8, &b| a.wrapping_add(b));
                if body.len() < 6 {
                    return None;
                }
                return Some((s == 0, fbbref::crc(&body[2..]) == u16::from_le_bytes([body[0], body[1]])));
            }
            _ => return None,
        }
    }
}

/// C08: every well-formed message is accepted with exactly its content, whatever follows it.
pub fn c08(ctx: Arc<Ctx>) -> ! {
    ctx.run("good", ctx.n(12_000, 150_000), 60, |ctx, _, rng| {
        let m = make(rng, if rng.clone().chance(1, 20) { 20_000 } else { 1500 });
        good_case(ctx, m, rng)
    });
    // Every header length up to the limit, every single block length, every title character.
    ctx.run("systematic", 600, 60, |ctx, case, rng| {
        let i = (case % 1_000_000_000) as usize;
        let (t, sp): (Vec<u8>, usize) = if i < 88 - 2 {
            ((0..i.min(85)).map(|_| rng.range(0x20, 0x7E) as u8).collect(), 20)
        } else if i < 86 + 251 {
            (b"Title".to_vec(), 6 + (i - 86))
        } else {
            (vec![0x20 + (i % 95) as u8; 3], 6 + i % 251)
        };
        let payload = rng.bytes(sp - 6);
        let wire = fbbref::build(&t, "7", 99, &payload, &[sp]);
        let msg = match fbbref::message(&wire) {
            Verdict::Good(g, _) => g,
            other => return bad("harness: built a bad message", format!("{other:?}")),
        };
        good_case(ctx, Made { wire, msg, text: None }, rng)
    });
    // Beyond 64 KiB, and a few beyond a mebibyte, on the wire and decompressed.
    ctx.run("large", ctx.n(2, 20), 120, |ctx, case, rng| {
        let n = match case % 3 {
            0 => rng.range(60_000, 140_000),
            1 => rng.range(250_000, 400_000),
            _ => rng.range(1_000_000, 2_500_000),
        };
        let mut text = rng.bytes(n / 4);
        while text.len() < n {
            text.extend(gen::text(rng, 9000).1);
        }
        let toks = lzref::tokenize(&text);
        let payload = lzref::write_tokens(&toks).bytes;
        let sp = splits(rng, payload.len() + 6);
        let wire = fbbref::build(b"large", "0", text.len() as u32, &payload, &sp);
        let msg = match fbbref::message(&wire) {
            Verdict::Good(g, _) => g,
            _ => return bad("harness: built a bad message", "large".to_string()),
        };
        ctx.maximum("largest content", text.len() as u64);
        ctx.maximum("longest message", wire.len() as u64);
        ctx.count("large messages", 1);
        good_case(ctx, Made { wire, msg, text: Some(text) }, rng)
    });
    ctx.require("large messages", 3);
    ctx.require("contents decompressed", 1000);
    ctx.require("messages with a 256-byte block", 500);
    ctx.finish(
        "exploration",
        "a case is a well-formed message built by an independent writer: title, offset, content (half of them genuinely compressed), split into blocks of 1..256 bytes, with and without bytes after it; distinct by content",
        &["declared sizes of genuinely compressed contents go up to some megabytes, not to the four gigabytes of the field"],
    )
}

fn good_case(ctx: &Ctx, m: Made, rng: &mut Rng) -> Result<(), Bad> {
    let mut w = m.wire.clone();
    let own = w.len();
    match rng.below(4) {
        0 => w.extend(rng.bytes(rng.clone().range(1, 40))),
        1 => w.extend(&m.wire),
        _ => {}
    }
    ctx.eval(1);
    ctx.distinct(hash64(&m.wire));
    ctx.count("blocks", m.msg.blocks.len() as u64);
    if m.msg.blocks.iter().enumerate().any(|(i, &b)| b + if i == 0 { 6 } else { 0 } == 256) {
        ctx.count("messages with a 256-byte block", 1);
    }
    ctx.distinct_cheap("header lengths", m.wire[1] as u64);
    ctx.maximum("most blocks", m.msg.blocks.len() as u64);
    let log = rng.chance(1, 20);
    match call(ctx, "reading a message", &w, log, |d| sutfbb::message(d))? {
        Outcome::Parsed(got, used) => {
            if std::str::from_utf8(&got.title).is_err() {
                return bad("the title is not valid text", hex(&got.title));
            }
            if !same(&got, &m.msg) {
                return bad("a good message is reported wrongly", format!("{}: {got:?}, should be {:?}", short_hex(&w), m.msg));
            }
            if used != own {
                return bad("a good message takes too many or too few bytes", format!("{used} of {own}: {}", short_hex(&w)));
            }
        }
        other => return bad("a good message was not accepted", format!("{other:?}: {} bytes {}", w.len(), hex(&w[..w.len().min(400)]))),
    }
    if let Some(text) = &m.text {
        ctx.count("contents decompressed", 1);
        match call(ctx, "decompressing a message", &w, false, |d| sutfbb::message_content(d))? {
            Outcome::Parsed(Some(got), _) if got == *text => {}
            Outcome::Parsed(Some(got), _) => return bad("a message is decompressed to something else", format!("{} bytes, should be {}: {}", got.len(), text.len(), short_hex(&w))),
            other => return bad("a good message is not decompressed", format!("{:?}: {} bytes {}", matches!(other, Outcome::Parsed(..)), w.len(), short_hex(&w))),
        }
        // The same content declared longer than it is must fail, not be padded.
        let longer = m.msg.size + 200 + rng.below(1000) as u32;
        let sp = splits(rng, m.msg.payload.len() + 6);
        let w2 = fbbref::build(&m.msg.title, "0", longer, &m.msg.payload, &sp);
        let holds = lzref::decode(&m.msg.payload, longer as usize).complete;
        match call(ctx, "decompressing a message", &w2, false, |d| sutfbb::message_content(d))? {
            Outcome::Parsed(None, _) if !holds => ctx.count("contents shorter than declared, refused", 1),
            Outcome::Parsed(Some(v), _) if holds && v.len() == longer as usize => {}
            other => {
                return bad(
                    "a content shorter than declared is not refused",
                    format!("{:?} for {} bytes declared as {longer}", matches!(other, Outcome::Parsed(Some(_), _)), text.len()),
                )
            }
        }
    }
    ctx.sample(|| format!("{} bytes, {} blocks, title {:?}: {}", own, m.msg.blocks.len(), String::from_utf8_lossy(&m.msg.title), short_hex(&m.wire)));
    Ok(())
}

// ------------------------------------------------------------------ streaming

pub type Parser = (&'static str, fn(&[u8]) -> Outcome<u64>);

fn flat<T: std::fmt::Debug>(o: Outcome<T>) -> Outcome<u64> {
    match o {
        Outcome::Parsed(v, n) => Outcome::Parsed(hash64(format!("{v:?}").as_bytes()), n),
        Outcome::Incomplete(n) => Outcome::Incomplete(n),
        Outcome::Rejected => Outcome::Rejected,
    }
}

pub const PARSERS: &[Parser] = &[
    ("message", |d| flat(sutfbb::message(d))),
    ("FA/FB proposal", |d| flat(sutfbb::fbb_proposal(d))),
    ("FC proposal", |d| flat(sutfbb::winlink_proposal(d))),
    ("selection of 1", |d| flat(sutfbb::selection::<1>(d))),
    ("selection of 3", |d| flat(sutfbb::selection::<3>(d))),
    ("selection of 5", |d| flat(sutfbb::selection::<5>(d))),
    ("FF", |d| flat(sutfbb::control_tag(0, d))),
    ("FQ", |d| flat(sutfbb::control_tag(1, d))),
    ("F>", |d| flat(sutfbb::control_tag(2, d))),
];

/// Good input for parser `p`, and how much of it belongs to it.
pub fn good_input(rng: &mut Rng, p: usize) -> (Vec<u8>, usize) {
    match p {
        0 => {
            let w = make(rng, 500).wire;
            let n = w.len();
            (w, n)
        }
        1 => {
            let l = fbb_line(rng);
            let n = l.len();
            (l, n)
        }
        2 => {
            let l = winlink_line(rng);
            let n = l.len();
            (l, n)
        }
        3 | 4 | 5 => {
            let n = [1, 3, 5][p - 3];
            let mut l = selection_line(rng, n);
            let k = l.len();
            l.push(b'\r');
            (l, k)
        }
        _ => {
            let t = [&b"FF"[..], b"FQ", b"F>"][p - 6].to_vec();
            (t, 2)
        }
    }
}

/// C09: reading in pieces. Every proper prefix of good input asks for more, for at least one byte
/// and at most what is missing; complete malformed input never asks; a verdict is final.
pub fn c09(ctx: Arc<Ctx>) -> ! {
    ctx.run("prefixes", ctx.n(4000, 50_000), 60, |ctx, case, rng| {
        let p = (case % PARSERS.len() as u64) as usize;
        let (name, f) = PARSERS[p];
        let (data, own) = good_input(rng, p);
        let full = call(ctx, name, &data, false, f)?;
        let Outcome::Parsed(value, used) = full else {
            return bad("good input was not accepted", format!("{name}: {full:?}: {}", short_hex(&data)));
        };
        if used != own {
            return bad("good input was not consumed exactly", format!("{name}: {used} of {own}: {}", short_hex(&data)));
        }
        ctx.distinct(hash64(&data));
        ctx.sample(|| format!("{name}: all {} prefixes of {}", data.len(), short_hex(&data)));
        for k in 0..data.len() {
            ctx.eval(1);
            let log = k % 64 == 7 && rng.chance(1, 16);
            let r = call(ctx, name, &data[..k], log, f)?;
            match r {
                Outcome::Incomplete(Some(n)) if n >= 1 && n <= data.len() - k => ctx.bump(0),
                Outcome::Incomplete(n) => {
                    return bad(
                        "asks for a wrong number of bytes",
                        format!("{name}: {n:?} after {k} of {} bytes: {}", data.len(), hex(&data)),
                    )
                }
                Outcome::Parsed(v, n) if k >= own && v == value && n == own => {}
                other => return bad("the beginning of good input is not recognised as such", format!("{name}: {other:?} after {k} of {} bytes: {}", data.len(), hex(&data))),
            }
        }
        // Following what it asks for, byte count by byte count, gets there without overshooting.
        let mut have = 0;
        let mut rounds = 0;
        loop {
            match call(ctx, name, &data[..have], false, f)? {
                Outcome::Incomplete(Some(n)) => {
                    have += n;
                    rounds += 1;
                    if have > data.len() {
                        return bad("reading as asked overshoots", format!("{name}: {have} of {}", data.len()));
                    }
                }
                Outcome::Parsed(v, _) if v == value => break,
                other => return bad("reading as asked does not arrive", format!("{name}: {other:?} at {have} of {}", data.len())),
            }
        }
        ctx.maximum("rounds when reading as asked", rounds);
        Ok(())
    });
    ctx.run("verdicts", ctx.n(4000, 60_000), 60, |ctx, case, rng| {
        let p = (case % PARSERS.len() as u64) as usize;
        let (name, f) = PARSERS[p];
        let mut data = good_input(rng, p).0;
        if p == 0 {
            let keep = data.len();
            damage(rng, &mut data);
            if rng.chance(1, 3) && data.len() + 4 > keep {
                data.extend(rng.bytes(rng.clone().range(0, 20)));
            }
        } else {
            mutate_line(rng, &mut data);
        }
        ctx.distinct(hash64(&data));
        let mut verdict: Option<(usize, Outcome<u64>)> = None;
        for k in 0..=data.len() {
            ctx.eval(1);
            let r = call(ctx, name, &data[..k], false, f)?;
            let asks = matches!(r, Outcome::Incomplete(_));
            if let Outcome::Incomplete(n) = r {
                if n == Some(0) || n.is_none() {
                    return bad("asks for more without saying at least one byte", format!("{name}: after {k} bytes of {}", hex(&data)));
                }
            }
            if let Some((at, v)) = &verdict {
                if *v != r {
                    return bad("a verdict changed with the bytes that followed", format!("{name}: {v:?} after {at} bytes, {r:?} after {k}: {}", hex(&data)));
                }
            } else if !asks {
                ctx.bump(if matches!(r, Outcome::Rejected) { 1 } else { 2 });
                verdict = Some((k, r.clone()));
            }
            let complete_and_bad = match p {
                0 => matches!(fbbref::message(&data[..k]), Verdict::Bad),
                1 | 2 => k > 0 && data[k - 1] == b'\r' && !data[..k - 1].contains(&b'\r') && (if p == 1 { fbbref::fbb(&data[..k]).is_none() } else { fbbref::winlink(&data[..k]).is_none() }),
                3..=5 => matches!(fbbref::selection(&data[..k], [1, 3, 5][p - 3]), fbbref::Sel::Bad),
                _ => k >= 2 && &data[..2] != [&b"FF"[..], b"FQ", b"F>"][p - 6],
            };
            if complete_and_bad {
                ctx.bump(3);
                if r != Outcome::Rejected {
                    return bad("complete malformed input is not rejected", format!("{name}: {r:?} after {k} bytes: {}", hex(&data[..k])));
                }
            }
        }
        Ok(())
    });
    ctx.flush_bumps(&["prefixes that asked for more", "verdicts: rejected", "verdicts: accepted", "complete malformed inputs judged"]);
    ctx.require("prefixes that asked for more", 10_000);
    ctx.require("complete malformed inputs judged", 2000);
    ctx.finish(
        "exploration",
        "every prefix of good inputs to each of nine parsers, and every prefix of damaged ones; distinct by content",
        &["how many bytes are asked for is only bounded, not prescribed"],
    )
}

// ------------------------------------------------------------------ totality

/// Bytes for parser `p`: random, biased, damaged, misdirected.
pub fn hostile(rng: &mut Rng, p: usize) -> Vec<u8> {
    match rng.below(5) {
            0 => rng.bytes(rng.clone().size(300)),
            1 => {
                let a = b"\x01\x02\x04\x00FABCEMS >PBTQ +!-=0123456789\r\xff\x80~KC1GSL";
                (0..rng.size(120)).map(|_| *rng.pick(a)).collect()
            }
            2 => {
                let mut d = good_input(rng, p).0;
                if p == 0 {
                    damage(rng, &mut d);
                } else {
                    mutate_line(rng, &mut d);
                }
                d
            }
            3 => {
                let mut d = good_input(rng, p).0;
                for _ in 0..rng.range(1, 8) {
                    if !d.is_empty() {
                        let i = rng.below(d.len() as u64) as usize;
                        d[i] = *rng.pick(&[0u8, 0x7F, 0x80, 0xC2, 0xE2, 0xF0, 0xFF, b'\r', b' ', b'9']);
                    }
                }
                d
            }
            _ => good_input(rng, rng.clone().below(PARSERS.len() as u64) as usize).0,
        }
}

/// Inputs that can be made as long as one likes: which parser they are for (`None`: decompression), and the bytes.
type Family = (&'static str, fn(&mut Rng, usize) -> (Option<usize>, Vec<u8>));
const FAMILIES: &[Family] = &[
    ("a message in one-byte blocks", |r, n| (Some(0), message_of(r, n, 1))),
    ("a message in full blocks", |r, n| (Some(0), message_of(r, n, 256))),
    ("a message in one-byte blocks that breaks off", |r, n| {
        let mut w = message_of(r, n, 1);
        w.truncate(w.len() - 2);
        (Some(0), w)
    }),
    ("a message in one-byte blocks that is damaged", |r, n| {
        let mut w = message_of(r, n, 1);
        let last = w.len() - 1;
        w[last] ^= 0x55;
        (Some(0), w)
    }),
    ("headers without end", |_, n| (Some(0), b"\x01".repeat(n))),
    ("titles without end", |_, n| (Some(0), [&b"\x01\xff"[..], &b"t".repeat(n)].concat())),
    ("an FA proposal with a long id", |_, n| (Some(1), [&b"FA P KC1GSL W1AW KC1GSL "[..], &b"A".repeat(n), b" 100\r"].concat())),
    ("an FA proposal of blanks", |_, n| (Some(1), [&b"FA P "[..], &b" ".repeat(n), b"\r"].concat())),
    ("an FA proposal with a long size", |_, n| (Some(1), [&b"FA P KC1GSL W1AW KC1GSL 1 "[..], &b"9".repeat(n), b"\r"].concat())),
    ("an FA proposal of letters beyond ASCII", |_, n| (Some(1), [&b"FA P "[..], &"\u{e9}".repeat(n).into_bytes(), b"\r"].concat())),
    ("an FC proposal with a long id", |_, n| (Some(2), [&b"FC EM "[..], &b"A".repeat(n), b" 100 50 0\r"].concat())),
    ("an FC proposal with a long size", |_, n| (Some(2), [&b"FC EM ABC "[..], &b"1".repeat(n), b" 50 0\r"].concat())),
    ("an FC proposal with zeros before its size", |_, n| (Some(2), [&b"FC EM ABC "[..], &b"0".repeat(n), b"1 50 0\r"].concat())),
    ("a selection with too many answers", |_, n| (Some(5), [&b"FS "[..], &b"+".repeat(n), b"\r"].concat())),
    ("a selection with a long offset", |_, n| (Some(5), [&b"FS "[..], &b"!1".to_vec(), &b"0".repeat(n), b"\r"].concat())),
    ("a selection of blanks", |_, n| (Some(4), [&b"FS"[..], &b" ".repeat(n), b"+++\r"].concat())),
    ("an FF with much after it", |r, n| (Some(6), [&b"FF"[..], &r.bytes(n)].concat())),
    ("an FQ with much after it", |r, n| (Some(7), [&b"FQ\r"[..], &r.bytes(n)].concat())),
    ("an F> with a long number", |_, n| (Some(8), [&b"F> "[..], &b"1".repeat(n), b"\r"].concat())),
    ("decompressing a text of one letter", |_, n| (None, message_holding(&vec![b'x'; n], 256))),
    ("decompressing random bytes", |r, n| (None, message_holding(&r.bytes(n), 256))),
    ("decompressing random bytes from one-byte blocks", |r, n| (None, message_holding(&r.bytes(n), 1))),
    ("decompressing words", |r, n| (None, message_holding(&(0..n).map(|_| *r.pick(b"etaoin shrdlu")).collect::<Vec<u8>>(), 200))),
];

/// A well-formed message of `n` random payload bytes in blocks of `block` bytes.
fn message_of(rng: &mut Rng, n: usize, block: usize) -> Vec<u8> {
    let payload = rng.bytes(n);
    in_blocks(&payload, 5, block)
}

fn message_holding(text: &[u8], block: usize) -> Vec<u8> {
    in_blocks(&plusendi::verif_hooks::lzhuf::encode(text), text.len() as u32, block)
}

fn in_blocks(payload: &[u8], size: u32, block: usize) -> Vec<u8> {
    // The checksum and the size have to be in the first block.
    let first = block.max(6).min(payload.len() + 6);
    let rest = payload.len() + 6 - first;
    let mut splits = vec![first];
    splits.extend(vec![block; rest / block]);
    if rest % block > 0 {
        splits.push(rest % block);
    }
    fbbref::build(b"big", "0", size, payload, &splits)
}

/// C10: any bytes to any parser, at any logging level: no panic, and it terminates.
pub fn c10(ctx: Arc<Ctx>) -> ! {
    ctx.run("hostile", ctx.n(60_000, 900_000), 60, |ctx, case, rng| {
        let p = (case % PARSERS.len() as u64) as usize;
        let (name, f) = PARSERS[p];
        let data = hostile(rng, p);
        let r0 = call(ctx, name, &data, false, f)?;
        ctx.eval(1);
        ctx.distinct(hash64(&data) ^ p as u64);
        ctx.count(match r0 { Outcome::Parsed(..) => "accepted", Outcome::Incomplete(_) => "asked for more", Outcome::Rejected => "rejected" }, 1);
        if rng.chance(1, 3) {
            let r1 = call(ctx, name, &data, true, f)?;
            if r0 != r1 {
                return bad("logging changed the result", format!("{name}: {r0:?} / {r1:?}: {}", hex(&data)));
            }
        }
        if p == 0 && rng.chance(1, 3) {
            // Decompression too, unless the message declares an absurd size.
            if let Outcome::Parsed(m, _) = sutfbb::message(&data) {
                if m.uncompressed_size < 1 << 22 {
                    call(ctx, "decompressing a message", &data, false, |d| sutfbb::message_content(d).clone_kind())?;
                    ctx.count("decompressed", 1);
                }
            }
        }
        ctx.sample(|| format!("{name}: {} -> {r0:?}", short_hex(&data)));
        Ok(())
    });
    // Long inputs, each at a size and at eight times that: the processor time has to grow with the size,
    // not with its square. Only a time that is long in itself is judged, by its growth.
    ctx.run("large", ctx.n(2, 12) * FAMILIES.len() as u64, 60, |ctx, case, rng| {
        let (name, f) = FAMILIES[(case % FAMILIES.len() as u64) as usize];
        let unit = rng.range(60_000, 80_000);
        let seed = rng.next();
        let cost = |n: usize| -> Result<(f64, usize), Bad> {
            let (p, input) = f(&mut Rng::new(seed), n);
            let t = thread_cpu();
            match p {
                Some(p) => { call(ctx, PARSERS[p].0, &input, false, PARSERS[p].1)?; }
                None => { call(ctx, "decompressing a message", &input, false, |d| sutfbb::message_content(d).clone_kind())?; }
            }
            ctx.eval(1);
            Ok(((thread_cpu() - t).as_secs_f64(), input.len()))
        };
        let (long, len) = cost(8 * unit)?;
        ctx.maximum("microseconds for the dearest long input", (long * 1e6) as u64);
        ctx.maximum("bytes in the longest input", len as u64);
        ctx.count("long inputs timed", 1);
        if long > 0.5 {
            // The least of three of the short one, so that a slow moment cannot hide the growth or feign it.
            let mut short = f64::MAX;
            for _ in 0..3 {
                short = short.min(cost(unit)?.0);
            }
            let mut long = long;
            for _ in 0..2 {
                long = long.min(cost(8 * unit)?.0);
            }
            if long > 0.5 && long > 24.0 * short {
                return bad("time out of proportion to the input", format!("{name}: {short:.4} s of processor time for {unit} units, {long:.4} s for eight times as many"));
            }
        }
        Ok(())
    });
    // The same with logging at its most verbose, judged by how much is logged: formatting takes its time too.
    ctx.run("large, logged", ctx.n(2, 12) * FAMILIES.len() as u64, 60, |ctx, case, rng| {
        let (name, f) = FAMILIES[(case % FAMILIES.len() as u64) as usize];
        let unit = rng.range(300, 600);
        let seed = rng.next();
        let logged_bytes = |n: usize| -> Result<usize, Bad> {
            let (p, input) = f(&mut Rng::new(seed), n);
            let (r, text) = logged(|| sut(|| match p {
                Some(p) => drop((PARSERS[p].1)(&input)),
                None => drop(sutfbb::message_content(&input).clone_kind()),
            }));
            ctx.eval(1);
            ctx.count("parses with logging on", 1);
            r.or_else(|p| bad("a reader panicked", format!("{p}; {name}, {n} units, logging on")))?;
            Ok(text.len())
        };
        let (short, long) = (logged_bytes(unit)?, logged_bytes(8 * unit)?);
        ctx.maximum("bytes logged about one input", long as u64);
        if long > 1 << 20 && long > 24 * short {
            return bad("logging out of proportion to the input", format!("{name}: {short} bytes logged about {unit} units, {long} about eight times as many"));
        }
        Ok(())
    });
    ctx.require("long inputs timed", FAMILIES.len() as u64);
    ctx.require("parses with logging on", 1000);
    ctx.require("rejected", 1000);
    ctx.finish(
        "exploration",
        "random, alphabet-biased, damaged and misdirected inputs to nine parsers, a third of them again with full logging; termination is judged on processor time far above need; distinct by content and parser",
        &["declared sizes above 4 MiB are not decompressed: the buffer they ask for is a resource question, not a panic"],
    )
}

/// C30, for the readers and the codec: the same input with logging off and at some level.
pub fn c30(ctx: Arc<Ctx>) -> ! {
    fn at<T>(level: Option<tracing::Level>, f: impl FnOnce() -> T) -> Result<Result<T, String>, Bad> {
        let Some(level) = level else { return Ok(sut(f)) };
        let (r, text) = logged_at(level, || sut(f));
        if std::str::from_utf8(&text).is_err() {
            return bad("log is not UTF-8", short_hex(&text));
        }
        Ok(r)
    }
    fn both<T: PartialEq>(ctx: &Ctx, what: &str, data: &[u8], level: tracing::Level, f: impl Fn() -> T) -> Result<(), Bad> {
        let off = at(None, &f)?;
        let on = at(Some(level), &f)?;
        let same = match (&off, &on) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            let p = on.err().or(off.err()).unwrap_or_default();
            return bad("logging changed the result", format!("{what} at {level}: {p} {}", short_hex(data)));
        }
        ctx.eval(1);
        Ok(())
    }
    let levels = [tracing::Level::ERROR, tracing::Level::WARN, tracing::Level::INFO, tracing::Level::DEBUG, tracing::Level::TRACE, tracing::Level::TRACE];
    ctx.run("c30 readers", ctx.n(20_000, 400_000), 60, move |ctx, case, rng| {
        let p = (case % PARSERS.len() as u64) as usize;
        let (name, f) = PARSERS[p];
        let data = hostile(rng, p);
        let level = *rng.pick(&levels);
        both(ctx, name, &data, level, || f(&data))?;
        ctx.distinct(hash64(&data) ^ p as u64);
        ctx.count("parses compared", 1);
        if p == 0 {
            if let Ok(Outcome::Parsed(m, _)) = sut(|| sutfbb::message(&data)) {
                if m.uncompressed_size < 1 << 20 {
                    both(ctx, "decompressing a message", &data, level, || format!("{:?}", sutfbb::message_content(&data)))?;
                    ctx.count("decompressions compared", 1);
                }
            }
        }
        if p == 8 {
            let text = rng.bytes(rng.clone().size(400));
            both(ctx, "compressing", &text, level, || plusendi::verif_hooks::lzhuf::encode(&text))?;
            let want = rng.size(400);
            both(ctx, "decompressing", &text, level, || {
                let mut b = vec![0u8; want];
                let ok = plusendi::verif_hooks::lzhuf::decode(&text, &mut b);
                (ok, b)
            })?;
            ctx.count("codec runs compared", 1);
        }
        ctx.sample(|| format!("{name} at {level}: {}", short_hex(&data)));
        Ok(())
    });
    ctx.require("parses compared", 10_000);
    ctx.require("decompressions compared", 50);
    ctx.finish("exploration", "each input read with logging off and at a level; distinct by content and parser", &[])
}

trait CloneKind {
    fn clone_kind(&self) -> u8;
}
impl<T> CloneKind for Outcome<T> {
    fn clone_kind(&self) -> u8 {
        match self {
            Outcome::Parsed(..) => 0,
            Outcome::Incomplete(_) => 1,
            Outcome::Rejected => 2,
        }
    }
}

// ------------------------------------------------------------------ control lines

fn name(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = if rng.chance(1, 3) { max } else { rng.range(1, max) };
    let mut v = vec![];
    while v.len() < n {
        if rng.chance(1, 30) && n - v.len() >= 2 {
            v.extend("é".bytes());
        } else if rng.chance(1, 10) {
            v.push(*rng.pick(b"-_@./0123456789!~"));
        } else {
            v.push(rng.range(b'A' as usize, b'Z' as usize) as u8);
        }
    }
    v
}

fn digits(rng: &mut Rng) -> Vec<u8> {
    let v = match rng.below(6) {
        0 => 0,
        1 => 65535,
        2 => 65536,
        3 => 999_999,
        4 => rng.below(1000),
        _ => rng.below(1_000_000),
    };
    let s = v.to_string();
    if rng.chance(1, 8) && s.len() < 6 {
        format!("{}{}", "0".repeat(6 - s.len()), s).into_bytes()
    } else {
        s.into_bytes()
    }
}

fn join(parts: &[Vec<u8>]) -> Vec<u8> {
    let mut v = parts.join(&b' ');
    v.push(b'\r');
    v
}

fn fbb_line(rng: &mut Rng) -> Vec<u8> {
    let tag = rng.pick(&[&b"FA"[..], b"FB"]).to_vec();
    let kind = vec![*rng.pick(b"PBT")];
    join(&[tag, kind, name(rng, 6), name(rng, 40), name(rng, 6), name(rng, 12), digits(rng)])
}

fn winlink_line(rng: &mut Rng) -> Vec<u8> {
    let mut p = vec![b"FC".to_vec(), b"EM".to_vec(), name(rng, 12), digits(rng), digits(rng)];
    if rng.chance(1, 2) {
        p.extend([name(rng, 6), name(rng, 40), name(rng, 6)]);
    }
    join(&p)
}

fn selection_line(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = b"FS ".to_vec();
    for _ in 0..n {
        let c = *rng.pick(b"+YH=L-NRE!A");
        v.push(c);
        if c == b'!' || c == b'A' {
            v.extend(digits(rng));
        }
    }
    v
}

/// Changes a control line a little.
fn mutate_line(rng: &mut Rng, l: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 2) {
        if l.is_empty() {
            return;
        }
        let i = rng.below(l.len() as u64) as usize;
        match rng.below(9) {
            0 => l[i] = *rng.pick(b" \r\n\t\0FABCEMSPTQ>+-=!0129LNRYHz"),
            1 => l[i] = rng.byte(),
            2 => {
                l.remove(i);
            }
            3 => l.insert(i, *rng.pick(b" \r09AZ\x80\xff")),
            4 => {
                // Lengthen a field past its limit.
                let b = l[i];
                for _ in 0..rng.range(1, 45) {
                    l.insert(i, b);
                }
            }
            5 => l[i] = l[i].to_ascii_lowercase(),
            6 => l.insert(i, b' '),
            7 => {
                let k = rng.below(l.len() as u64) as usize;
                l.swap(i, k);
            }
            _ => {
                let n = l.len();
                l.truncate(n - 1);
                if rng.chance(1, 2) {
                    l.extend(b" 0\r");
                }
            }
        }
    }
}

fn addr(a: &sutfbb::Addressing) -> fbbref::Addr {
    fbbref::Addr { sender: a.sender.clone(), mbo: a.mbo.clone(), recipient: a.recipient.clone() }
}

/// Judges one line: what a full line means is fixed by the reference; without its CR it must not be
/// accepted.
fn line_case<T, R: PartialEq + std::fmt::Debug>(
    ctx: &Ctx,
    what: &'static str,
    line: &[u8],
    log: bool,
    parse: fn(&[u8]) -> Outcome<T>,
    view: fn(&T) -> R,
    reference: Option<(R, usize)>,
) -> Result<(), Bad> {
    let r = call(ctx, what, line, log, parse)?;
    ctx.eval(1);
    match (r, reference) {
        (Outcome::Parsed(v, n), Some((want, m))) => {
            ctx.count("accepted", 1);
            ctx.distinct(hash64(line));
            let got = view(&v);
            if got != want || n != m {
                return bad(format!("{what} is read wrongly"), format!("{:?}: {got:?} using {n}, should be {want:?} using {m}", String::from_utf8_lossy(line)));
            }
            ctx.sample(|| format!("{:?} -> {got:?}", String::from_utf8_lossy(line)));
        }
        (Outcome::Parsed(v, n), None) => {
            return bad(format!("malformed {what} was accepted"), format!("{:?} ({}): {:?} using {n}", String::from_utf8_lossy(line), hex(line), view(&v)))
        }
        (o, Some((want, _))) => {
            return bad(
                format!("well-formed {what} was not accepted"),
                format!("{:?} ({}): {}, should be {want:?}", String::from_utf8_lossy(line), hex(line), if matches!(o, Outcome::Rejected) { "rejected" } else { "incomplete" }),
            )
        }
        (o, None) => {
            if line.contains(&b'\r') {
                ctx.count("malformed complete lines", 1);
                ctx.distinct(hash64(line));
                if !matches!(o, Outcome::Rejected) {
                    return bad(format!("malformed {what} is not rejected"), format!("{:?} ({}): asks for more", String::from_utf8_lossy(line), hex(line)));
                }
            } else {
                ctx.count("incomplete lines", 1);
            }
        }
    }
    Ok(())
}

/// C11: FA and FB proposals.
pub fn c11(ctx: Arc<Ctx>) -> ! {
    ctx.run("lines", ctx.n(120_000, 1_500_000), 60, |ctx, _, rng| {
        let mut l = fbb_line(rng);
        if rng.chance(1, 2) {
            mutate_line(rng, &mut l);
        } else if rng.chance(1, 2) {
            l.extend(rng.bytes(rng.clone().range(0, 6)));
        }
        let k = |t: &sutfbb::FbbProposal| fbbref::Fbb {
            kind: match t.message_type {
                sutfbb::MessageType::Private => b'P',
                sutfbb::MessageType::Bulletin => b'B',
                sutfbb::MessageType::Traffic => b'T',
            },
            addr: addr(&t.addressing),
            id: t.message_id.clone(),
            size: t.message_size,
        };
        line_case(ctx, "an FA/FB proposal", &l, rng.chance(1, 40), |d| sutfbb::fbb_proposal(d), k, fbbref::fbb(&l))
    });
    ctx.require("accepted", 10_000);
    ctx.require("malformed complete lines", 10_000);
    ctx.finish(
        "exploration",
        "well-formed FA/FB lines with every field at its limits, half of them then altered; every field compared with an independent reader; distinct by content",
        &["field limits are those the code documents: 6, 40, 6 and 12 characters, sizes of up to six digits"],
    )
}

/// C12: FC proposals.
pub fn c12(ctx: Arc<Ctx>) -> ! {
    ctx.run("lines", ctx.n(120_000, 1_500_000), 60, |ctx, _, rng| {
        let mut l = winlink_line(rng);
        if rng.chance(1, 2) {
            mutate_line(rng, &mut l);
        } else if rng.chance(1, 2) {
            l.extend(rng.bytes(rng.clone().range(0, 6)));
        }
        let k = |t: &sutfbb::WinlinkProposal| fbbref::Winlink {
            id: t.message_id.clone(),
            usize_: t.uncompressed_size,
            csize: t.compressed_size,
            addr: t.addressing.as_ref().map(addr),
        };
        line_case(ctx, "an FC proposal", &l, rng.chance(1, 40), |d| sutfbb::winlink_proposal(d), k, fbbref::winlink(&l))
    });
    ctx.require("accepted", 10_000);
    ctx.require("malformed complete lines", 10_000);
    ctx.finish(
        "exploration",
        "well-formed FC lines with and without the three address fields, half of them then altered; every field compared with an independent reader; distinct by content",
        &["as C11"],
    )
}

fn select(n: usize, d: &[u8]) -> Outcome<Vec<fbbref::Choice>> {
    fn go<const P: usize>(d: &[u8]) -> Outcome<Vec<fbbref::Choice>> {
        use plusendi::fbb::MessageChoice as M;
        match sutfbb::selection::<P>(d) {
            Outcome::Parsed(v, n) => Outcome::Parsed(
                v.iter()
                    .map(|c| match *c {
                        M::Accept { offset } => fbbref::Choice::Accept(offset as u64),
                        M::Defer => fbbref::Choice::Defer,
                        M::Reject => fbbref::Choice::Reject,
                    })
                    .collect(),
                n,
            ),
            Outcome::Incomplete(n) => Outcome::Incomplete(n),
            Outcome::Rejected => Outcome::Rejected,
        }
    }
    match n {
        0 => go::<0>(d),
        1 => go::<1>(d),
        2 => go::<2>(d),
        3 => go::<3>(d),
        4 => go::<4>(d),
        5 => go::<5>(d),
        8 => go::<8>(d),
        9 => go::<9>(d),
        12 => go::<12>(d),
        16 => go::<16>(d),
        30 => go::<30>(d),
        100 => go::<100>(d),
        _ => unreachable!(),
    }
}

fn selection_case(ctx: &Ctx, n: usize, l: &[u8], log: bool) -> Result<(), Bad> {
    let r = call(ctx, "a selection", l, log, |d| select(n, d))?;
    ctx.eval(1);
    let show = || format!("{n} answers from {:?}", String::from_utf8_lossy(l));
    match (fbbref::selection(l, n), r) {
        (fbbref::Sel::Good(want, m), Outcome::Parsed(got, k)) => {
            ctx.bump(0);
            ctx.distinct(hash64(l) ^ n as u64);
            if got != want || k != m {
                return bad("a selection is read wrongly", format!("{}: {got:?} using {k}, should be {want:?} using {m}", show()));
            }
            ctx.sample(|| format!("{} -> {got:?}", show()));
        }
        (fbbref::Sel::Good(want, _), o) => return bad("a well-formed selection was not accepted", format!("{}: {}, should be {want:?}", show(), if matches!(o, Outcome::Rejected) { "rejected" } else { "incomplete" })),
        (_, Outcome::Parsed(got, k)) => return bad("a malformed or incomplete selection was accepted", format!("{}: {got:?} using {k}", show())),
        (fbbref::Sel::Bad, Outcome::Incomplete(_)) => return bad("a malformed selection is not rejected", show()),
        (fbbref::Sel::Short, Outcome::Rejected) => return bad("the beginning of a selection was rejected", show()),
        _ => {
            ctx.bump(1);
            ctx.distinct(hash64(l) ^ n as u64);
        }
    }
    Ok(())
}

/// C13: selections and the three bare control lines.
pub fn c13(ctx: Arc<Ctx>) -> ! {
    ctx.run("lines", ctx.n(150_000, 2_000_000), 60, |ctx, _, rng| {
        let n = *rng.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 8, 9, 12, 16, 30, 100]);
        let mut l = selection_line(rng, n);
        if rng.chance(1, 2) {
            l.push(b'\r');
        }
        if rng.chance(1, 2) {
            mutate_line(rng, &mut l);
        }
        selection_case(ctx, n, &l, rng.chance(1, 40))
    });
    // Every offset there is, and every byte in every position of a short line.
    ctx.run("every offset", 1000, 60, |ctx, case, _| {
        let base = (case % 1_000_000_000) * 1000;
        for v in base..base + 1000 {
            selection_case(ctx, 1, format!("FS !{v}\r").as_bytes(), false)?;
        }
        Ok(())
    });
    ctx.run("every byte", 256, 60, |ctx, case, _| {
        let b = (case % 1_000_000_000) as u8;
        for c in 0..=255u8 {
            selection_case(ctx, 2, &[b'F', b'S', b' ', b, c, b'\r'], false)?;
            selection_case(ctx, 1, &[b, c, b' ', b'+', b'\r'], false)?;
            for (which, tag) in [&b"FF"[..], b"FQ", b"F>"].into_iter().enumerate() {
                let d = [b, c, b'\r'];
                let r = call(ctx, "a control line", &d, false, |d| sutfbb::control_tag(which, d))?;
                ctx.eval(1);
                let want = if &d[..2] == tag { Outcome::Parsed((), 2) } else { Outcome::Rejected };
                if r != want {
                    return bad("a bare control line is judged wrongly", format!("{:?} as {}: {r:?}", d, String::from_utf8_lossy(tag)));
                }
                ctx.bump(2);
            }
        }
        Ok(())
    });
    ctx.flush_bumps(&["selections accepted", "selections refused or incomplete", "control lines judged"]);
    ctx.require("selections accepted", 100_000);
    ctx.require("selections refused or incomplete", 20_000);
    ctx.finish(
        "exploration",
        "selections of 0..100 answers, half of them altered; every resume offset 0..999999; every pair of bytes as answers and as tag; distinct by content",
        &["the number of answers expected is a parameter of the parser; 0,1,2,3,4,5,8,9,12,16,30,100 are used"],
    )
}
