//! C06, C14, C15, C16: checksum, station ids, command texts, parse-error conversion.
use crate::common::*;
use crate::fbbref;
use plusendi::modem::vara::{BandwidthMode, Command, CompressionMode, ConnectCommand, ConnectPath, ListenMode, MyCallSigns};
use plusendi::verif_hooks as h;
use plusendi::{StationId, StationIdRef};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// C06: the checksum is CRC-16/XMODEM of the bytes in order.
pub fn c06(ctx: Arc<Ctx>) -> ! {
    // Three bytes reach every register value with every next byte: the step function exhaustively.
    ctx.run("every three bytes", 256, 60, |ctx, case, _| {
        let a = (case % 1_000_000_000) as u8;
        for b in 0..=255u8 {
            let s2 = fbbref::crc(&[a, b]);
            for c in 0..=255u8 {
                let d = [a, b, c];
                let want = step(s2, c);
                let got = sut(|| h::crc16::crc16(&d)).or_else(|p| bad("the checksum panicked", format!("{p}: {d:?}")))?;
                if got != want {
                    return bad("wrong checksum", format!("{}: {got:#06x}, should be {want:#06x}", hex(&d)));
                }
            }
            ctx.distinct_cheap("register values", s2 as u64);
        }
        ctx.eval(65536);
        ctx.count("three-byte inputs", 65536);
        Ok(())
    });
    ctx.run("long", ctx.n(6000, 60_000), 60, |ctx, _, rng| {
        let n = match rng.below(8) {
            0 => rng.range(60_000, 140_000),
            1 => rng.range(0, 2),
            _ => rng.size(5000),
        };
        let d = if rng.chance(1, 6) { vec![rng.byte(); n] } else { rng.bytes(n) };
        let want = fbbref::crc(&d);
        let got = sut(|| h::crc16::crc16(&d)).or_else(|p| bad("the checksum panicked", format!("{p}: {} bytes", d.len())))?;
        ctx.eval(1);
        ctx.distinct(hash64(&d));
        if got != want {
            return bad("wrong checksum", format!("{} bytes {}: {got:#06x}, should be {want:#06x}", d.len(), short_hex(&d)));
        }
        // Any burst of at most 16 bits shows.
        if !d.is_empty() {
            let mut e = d.clone();
            let at = rng.below(d.len() as u64 * 8) as usize;
            let burst = (rng.next() as u16) | 0x8000;
            for k in 0..16 {
                if burst >> (15 - k) & 1 == 1 && at + k < d.len() * 8 {
                    e[(at + k) / 8] ^= 0x80 >> ((at + k) % 8);
                }
            }
            let other = sut(|| h::crc16::crc16(&e)).or_else(|p| bad("the checksum panicked", p))?;
            ctx.count("bursts of up to 16 bits", 1);
            if other == got {
                return bad("a burst error goes unnoticed", format!("{} bytes, bit {at}, pattern {burst:#06x}", d.len()));
            }
        }
        ctx.sample(|| format!("{} bytes {} -> {got:#06x}", d.len(), short_hex(&d)));
        Ok(())
    });
    if ctx.only_case.is_none() && !ctx.has_violation() && ctx.distinct_count("register values") == 65536 {
        ctx.set_exhaustive();
    }
    ctx.finish(
        "exploration",
        "all 2^24 three-byte inputs (every register value with every next byte: the step function completely), and random inputs up to 140 kB against a bit-at-a-time computation; distinct counts the long ones",
        &["beyond three bytes exhaustiveness assumes the register is the only state"],
    )
}

fn step(mut r: u16, b: u8) -> u16 {
    for i in (0..8).rev() {
        let fb = (r >> 15) ^ (b >> i & 1) as u16;
        r <<= 1;
        if fb == 1 {
            r ^= 0x1021;
        }
    }
    r
}

// ------------------------------------------------------------------ station ids

/// A call sign: at most one digit, letters, digits, a letter, letters or digits; ASCII only.
fn call_sign(s: &str) -> bool {
    // Try every split; the strings are short.
    let b = s.as_bytes();
    for lead in 0..=1usize {
        if b.len() < lead || !b[..lead].iter().all(|c| c.is_ascii_digit()) {
            continue;
        }
        let mut i = lead;
        while i < b.len() && b[i].is_ascii_alphabetic() {
            i += 1;
        }
        if i == lead {
            continue;
        }
        let letters_end = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == letters_end || i == b.len() {
            continue;
        }
        if b[i].is_ascii_alphabetic() && b[i..].iter().all(|c| c.is_ascii_alphanumeric()) {
            return true;
        }
    }
    false
}

fn station_case(ctx: &Ctx, s: &str) -> Result<(), Bad> {
    let valid = call_sign(s);
    ctx.eval(1);
    let of = |what: &str, r: Result<Result<String, ()>, String>| -> Result<Option<String>, Bad> {
        match r {
            Ok(r) => Ok(r.ok()),
            Err(p) => bad("judging a station id panicked", format!("{what}: {p}: {s:?}")),
        }
    };
    let ways = [
        ("StationId::new", of("new", sut(|| StationId::new(s).map(|x| x.to_string()).map_err(|_| ())))?),
        ("FromStr", of("parse", sut(|| s.parse::<StationId>().map(|x| x.as_str().to_string()).map_err(|_| ())))?),
        ("StationIdRef::from_str", of("from_str", sut(|| StationIdRef::from_str(s).map(|x| x.as_str().to_string()).map_err(|_| ())))?),
        ("TryFrom", of("try_from", sut(|| StationId::try_from(s).map(|x| format!("{x}")).map_err(|_| ())))?),
    ];
    for (way, got) in &ways {
        match (got, valid) {
            (Some(g), true) => {
                ctx.bump(0);
                let want = s.to_ascii_uppercase();
                if *g != want {
                    return bad("a station id is normalised wrongly", format!("{way}: {s:?} -> {g:?}"));
                }
                // Normal forms are fixed points.
                let again = sut(|| StationId::new(g.as_str()).map(|x| x.to_string())).or_else(|p| bad("panic", p))?;
                if again.ok().as_ref() != Some(g) {
                    return bad("a normalised station id is not accepted as itself", format!("{way}: {s:?} -> {g:?}"));
                }
            }
            (Some(g), false) => return bad("an invalid station id was accepted", format!("{way}: {s:?} -> {g:?}")),
            (None, true) => return bad("a valid station id was refused", format!("{way}: {s:?}")),
            (None, false) => ctx.bump(1),
        }
    }
    Ok(())
}

/// C14: what is and is not a station id, and its one normal form.
pub fn c14(ctx: Arc<Ctx>) -> ! {
    // Every string of up to 7 (8) symbols over an alphabet with one of each kind.
    const KINDS: &[&str] = &["1", "K", "a", "-", "\n", "é"];
    let longest = if ctx.thorough() { 8 } else { 6 };
    let mut total = 0u64;
    for l in 0..=longest {
        total += 6u64.pow(l);
    }
    let chunk = 4096;
    ctx.run("every short string", (total + chunk - 1) / chunk, 120, move |ctx, case, _| {
        let lo = (case % 1_000_000_000) * chunk;
        for mut i in lo..(lo + chunk).min(total) {
            let mut l = 0u32;
            while i >= 6u64.pow(l) {
                i -= 6u64.pow(l);
                l += 1;
            }
            let mut s = String::new();
            for _ in 0..l {
                s.push_str(KINDS[(i % 6) as usize]);
                i /= 6;
            }
            station_case(ctx, &s)?;
        }
        ctx.count("strings over the six kinds, all lengths to the limit", chunk.min(total - lo));
        Ok(())
    });
    // Every character in every place of a valid id.
    ctx.run("every character", 0x3000, 60, |ctx, case, rng| {
        let c0 = (case % 1_000_000_000) as u32;
        for c in [c0, c0 + 0x3000 * (1 + rng.below(80) as u32)] {
            let Some(c) = char::from_u32(c) else { continue };
            for base in ["KC1GSL", "4X6TU"] {
                for i in 0..=base.len() {
                    let mut s = base.to_string();
                    s.insert(i, c);
                    station_case(ctx, &s)?;
                    if i < base.len() {
                        let mut s = String::new();
                        s.push_str(&base[..i]);
                        s.push(c);
                        s.push_str(&base[i + 1..]);
                        station_case(ctx, &s)?;
                    }
                }
            }
        }
        Ok(())
    });
    ctx.run("random", ctx.n(30_000, 500_000), 60, |ctx, _, rng| {
        let mut s = String::new();
        if rng.chance(1, 3) {
            s.push((b'0' + rng.below(10) as u8) as char);
        }
        let letter = |rng: &mut Rng| {
            let c = (b'A' + rng.below(26) as u8) as char;
            if rng.chance(1, 2) { c.to_ascii_lowercase() } else { c }
        };
        // No part of an id has a longest length.
        let long = rng.chance(1, 6);
        let upto = |rng: &mut Rng, n: usize| if long && rng.chance(1, 2) { *rng.pick(&[10, 20, 60, 300]) } else { n };
        let (k1, k2, k3) = (upto(rng, 4), upto(rng, 3), upto(rng, 5));
        for _ in 0..rng.range(1, k1) {
            s.push(letter(rng));
        }
        for _ in 0..rng.range(1, k2) {
            s.push((b'0' + rng.below(10) as u8) as char);
        }
        for _ in 0..rng.range(0, k3) {
            s.push(if rng.chance(1, 5) { (b'0' + rng.below(10) as u8) as char } else { letter(rng) });
        }
        match rng.below(4) {
            0 => {
                let i = rng.below(s.len() as u64 + 1) as usize;
                s.insert(i, *rng.pick(&[' ', '\r', '\n', '-', '/', '\0', 'ß', '٣', 'K', 'ı']));
            }
            1 => s = format!("{s}{}", rng.pick(&["-1", "-15", " ", "\r", "\n", "\r\n", " KC1GSL", "\rABORT"])),
            2 => s = format!("{}{s}", rng.pick(&[" ", "\n", "KC1GSL ", "-", "12", "x y"])),
            _ => {}
        }
        ctx.distinct(hash64(s.as_bytes()));
        station_case(ctx, &s)?;
        // Ids that differ only in case are one id, also to a hash map.
        if call_sign(&s) {
            let (a, b) = (StationId::new(s.to_lowercase()), StationId::new(s.to_uppercase()));
            if let (Ok(a), Ok(b)) = (a, b) {
                let m: HashMap<StationId, u8> = [(a.clone(), 1)].into();
                if a != b || !m.contains_key(&b) {
                    return bad("the same station id in two cases is not the same", format!("{a} / {b}"));
                }
                ctx.bump(2);
            }
        }
        ctx.sample(|| format!("{s:?} -> {}", call_sign(&s)));
        Ok(())
    });
    ctx.flush_bumps(&["accepted", "refused", "pairs compared across case"]);
    ctx.require("accepted", 10_000);
    ctx.require("refused", 10_000);
    ctx.finish(
        "exploration",
        "every string of up to 6 (thorough: 8) symbols over {digit, capital, small letter, hyphen, line feed, non-ASCII letter}; every BMP character below 0x3000 and a sample above inserted and substituted in two ids; random ids, half of them altered; four ways to make an id each; distinct counts the random ones",
        &["SSID suffixes (-1..-15) are not station ids here: no part of the code base supports them"],
    )
}

// ------------------------------------------------------------------ command texts

pub fn id(rng: &mut Rng) -> StationId {
    let mut s = String::new();
    if rng.chance(1, 3) {
        s.push((b'1' + rng.below(9) as u8) as char);
    }
    for _ in 0..rng.range(1, 2) {
        s.push((b'A' + rng.below(26) as u8) as char);
    }
    s.push((b'0' + rng.below(10) as u8) as char);
    for _ in 0..rng.range(1, 3) {
        s.push((b'A' + rng.below(26) as u8) as char);
    }
    StationId::new(s).unwrap()
}

pub fn command(rng: &mut Rng) -> (Command, String) {
    match rng.below(8) {
        0 => {
            let (m, t) = rng.pick(&[(ListenMode::Disable, "OFF"), (ListenMode::CQ, "CQ"), (ListenMode::Enable, "ON")]).clone();
            (Command::Listen(m), format!("LISTEN {t}"))
        }
        1 | 2 => {
            let (o, t, a, b) = (id(rng), id(rng), id(rng), id(rng));
            let (path, text) = match rng.below(3) {
                0 => (ConnectPath::Direct, format!("CONNECT {o} {t}")),
                1 => (ConnectPath::OneHop { digipeater: a.clone() }, format!("CONNECT {o} {t} via {a}")),
                _ => (ConnectPath::TwoHops { first: a.clone(), second: b.clone() }, format!("CONNECT {o} {t} via {a} {b}")),
            };
            (Command::Connect(ConnectCommand { origin: o, target: t, path }), text)
        }
        3 => (Command::Disconnect, "DISCONNECT".into()),
        4 => (Command::Abort, "ABORT".into()),
        5 => {
            let first = id(rng);
            let more: Vec<StationId> = (0..rng.range(0, 5)).map(|_| id(rng)).collect();
            let mut t = format!("MYCALL {first}");
            for m in &more {
                t.push(' ');
                t.push_str(m.as_str());
            }
            (Command::SetCall(MyCallSigns(first, more)), t)
        }
        6 => {
            let (m, t) = rng.pick(&[(CompressionMode::Off, "OFF"), (CompressionMode::Text, "TEXT"), (CompressionMode::Files, "FILES")]).clone();
            (Command::SetCompression(m), format!("COMPRESSION {t}"))
        }
        _ => {
            let (m, t) = rng.pick(&[(BandwidthMode::Narrow, "500"), (BandwidthMode::Wide, "2300"), (BandwidthMode::Tactical, "2750")]).clone();
            (Command::SetBandwidth(m), format!("BW{t}"))
        }
    }
}

/// C15: each command has one text, which says exactly that command.
pub fn c15(ctx: Arc<Ctx>) -> ! {
    let seen: Arc<Mutex<HashMap<String, String>>> = Arc::default();
    ctx.run("commands", ctx.n(100_000, 1_500_000), 60, move |ctx, _, rng| {
        let (c, want) = command(rng);
        let got = sut(|| c.to_string()).or_else(|p| bad("writing a command panicked", format!("{p}: {c:?}")))?;
        ctx.eval(1);
        ctx.distinct(hash64(got.as_bytes()));
        ctx.count(&format!("commands: {}", want.split(' ').next().unwrap()), 1);
        if got != want {
            return bad("a command is written wrongly", format!("{c:?}: {got:?}, should be {want:?}"));
        }
        if got.bytes().any(|b| !(0x20..0x7F).contains(&b)) {
            return bad("a command contains a control character", format!("{c:?}: {got:?}"));
        }
        let dbg = format!("{c:?}");
        let mut s = seen.lock().unwrap();
        if s.len() < 200_000 {
            if let Some(other) = s.insert(got.clone(), dbg.clone()) {
                if other != dbg {
                    return bad("two commands have the same text", format!("{dbg} / {other}: {got:?}"));
                }
            }
        }
        // Into the same type from a single id.
        let one = id(rng);
        let m: MyCallSigns = one.clone().into();
        if m.to_string() != one.as_str() {
            return bad("a single call sign is written wrongly", format!("{m}"));
        }
        ctx.sample(|| format!("{c:?} -> {got:?}"));
        Ok(())
    });
    ctx.finish(
        "exploration",
        "random commands of every kind, with 1..6 call signs and 0..2 relays, against an independent writer; collisions between different commands are looked for among all texts seen; distinct by text",
        &[],
    )
}

// ------------------------------------------------------------------ parse-error conversion

/// An error's input as it came out of the conversion.
fn shown(e: &h::parser::Shown) -> h::parser::Entry {
    let (text, bytes) = match *e {
        h::parser::Shown::Str(s) => (Some(s.to_string()), None),
        h::parser::Shown::Bytes(b) => (None, Some(b.to_vec())),
    };
    h::parser::Entry { text, bytes, kind: String::new(), display: e.to_string(), debug: format!("{e:?}") }
}

/// C16: making a parse error printable keeps what it says.
pub fn c16(ctx: Arc<Ctx>) -> ! {
    use nom::error::{Error, ErrorKind, VerboseError, VerboseErrorKind};
    use nom::{Err as E, IResult, Needed};
    const CODES: &[ErrorKind] = &[
        ErrorKind::Tag,
        ErrorKind::MapRes,
        ErrorKind::Alt,
        ErrorKind::Eof,
        ErrorKind::Verify,
        ErrorKind::TakeWhileMN,
        ErrorKind::Digit,
        ErrorKind::Complete,
        ErrorKind::Fail,
        ErrorKind::TooLarge,
        ErrorKind::Not,
        ErrorKind::NonEmpty,
    ];
    fn input(rng: &mut Rng) -> Vec<u8> {
        let mut v = match rng.below(6) {
            0 => rng.bytes(rng.clone().size(40)),
            1 => "CONNECTED KC1GSL W1AW".as_bytes().to_vec(),
            2 => "déjà vu – 73 €𝄞".as_bytes().to_vec(),
            3 => (0..rng.size(30)).map(|_| rng.range(0, 0x7F) as u8).collect(),
            4 if rng.chance(1, 8) => {
                // Long ones, with one odd byte somewhere.
                let mut v: Vec<u8> = (0..rng.range(250, 9000)).map(|_| rng.range(0x20, 0x7E) as u8).collect();
                if rng.chance(1, 2) {
                    let at = rng.below(v.len() as u64) as usize;
                    v[at] = 0xFF;
                }
                v
            }
            _ => "é€𝄞".as_bytes().repeat(rng.range(0, 4)),
        };
        if rng.chance(1, 3) && !v.is_empty() {
            let n = rng.range(0, v.len());
            v.truncate(n);
        }
        v
    }
    fn kind(rng: &mut Rng) -> VerboseErrorKind {
        match rng.below(4) {
            0 => VerboseErrorKind::Context(*rng.pick(&["header", "FC proposal", "", "déjà vu", "block"])),
            1 => VerboseErrorKind::Char(*rng.pick(&['F', ' ', '\r', '€', '\u{10FFFF}'])),
            _ => VerboseErrorKind::Nom(*rng.pick(CODES)),
        }
    }
    fn wrap<T, X>(fatal: bool, e: X) -> Result<T, E<X>> {
        Err(if fatal { E::Failure(e) } else { E::Error(e) })
    }
    /// What is in the outcome of a conversion that was given an error.
    fn inside<I, X: std::fmt::Debug>(r: IResult<I, u32, X>, fatal: bool) -> Result<X, Bad> {
        match r {
            Err(E::Error(e)) if !fatal => Ok(e),
            Err(E::Failure(e)) if fatal => Ok(e),
            Err(e) => bad("recoverable and final errors were mixed up", format!("fatal: {fatal}, got {e:?}")),
            Ok(_) => bad("an error became a success", String::new()),
        }
    }
    fn judge(ctx: &Ctx, bytes: &[u8], e: &h::parser::Entry) -> Result<(), Bad> {
        match std::str::from_utf8(bytes) {
            Ok(s) => {
                ctx.bump(0);
                if e.text.as_deref() != Some(s) || e.bytes.is_some() {
                    return bad("text in a parse error was not kept", format!("{}: {e:?}", hex(bytes)));
                }
                if e.display != s || e.debug != format!("{s:?}") {
                    return bad("text in a parse error is shown wrongly", format!("{s:?}: {e:?}"));
                }
            }
            Err(_) => {
                ctx.bump(1);
                if e.bytes.as_deref() != Some(bytes) || e.text.is_some() {
                    return bad("bytes in a parse error were not kept", format!("{}: {e:?}", hex(bytes)));
                }
                // Every byte can be read off either rendering.
                for shown in [&e.display, &e.debug] {
                    let seen: Option<Vec<u8>> = shown
                        .split("0x")
                        .skip(1)
                        .map(|p| u8::from_str_radix(p.get(..2)?, 16).ok())
                        .collect();
                    if seen.as_deref() != Some(bytes) {
                        return bad("bytes in a parse error are shown wrongly", format!("{}: {shown}", hex(bytes)));
                    }
                }
            }
        }
        Ok(())
    }
    fn all(ctx: &Ctx, want: &[(&[u8], VerboseErrorKind)], got: &[(h::parser::Shown, VerboseErrorKind)]) -> Result<(), Bad> {
        if want.len() != got.len() {
            return bad("a parse error lost or gained entries", format!("{want:?}: {got:?}"));
        }
        for (w, g) in want.iter().zip(got) {
            judge(ctx, w.0, &shown(&g.0))?;
            if w.1 != g.1 {
                return bad("the kind of a parse error changed", format!("{:?}: {:?}", w.1, g.1));
            }
        }
        Ok(())
    }
    fn crash<T>(p: String) -> Result<T, Bad> {
        bad("converting a parse error panicked", p)
    }
    ctx.run("errors", ctx.n(60_000, 800_000), 60, |ctx, _, rng| {
        let many = if rng.chance(1, 20) { 40 } else { 6 };
        let fatal = rng.chance(1, 2);
        let inputs: Vec<Vec<u8>> = (0..rng.range(0, many)).map(|_| input(rng)).collect();
        let errs: Vec<(&[u8], VerboseErrorKind)> = inputs.iter().map(|i| (&i[..], kind(rng))).collect();
        let one = input(rng);
        let code = *rng.pick(CODES);
        ctx.eval(4);
        ctx.distinct(hash64(&inputs.concat()) ^ inputs.len() as u64);
        // Over bytes, in detail and plain.
        let r = sut(|| h::parser::bytes_verbose(wrap(fatal, VerboseError { errors: errs.clone() }))).or_else(crash)?;
        all(ctx, &errs, &inside(r, fatal)?.errors)?;
        let r = sut(|| h::parser::bytes_plain(wrap(fatal, Error { input: &one[..], code }))).or_else(crash)?;
        let e = inside(r, fatal)?;
        judge(ctx, &one, &shown(&e.input))?;
        if e.code != code {
            return bad("the kind of a parse error changed", format!("{code:?}: {e:?}"));
        }
        // Over text.
        let texts: Vec<String> = inputs.iter().map(|i| String::from_utf8_lossy(i).into_owned()).collect();
        let errs: Vec<(&str, VerboseErrorKind)> = texts.iter().zip(&errs).map(|(t, e)| (&t[..], e.1.clone())).collect();
        let want: Vec<(&[u8], VerboseErrorKind)> = errs.iter().map(|e| (e.0.as_bytes(), e.1.clone())).collect();
        let r = sut(|| h::parser::text_verbose(wrap(fatal, VerboseError { errors: errs.clone() }))).or_else(crash)?;
        all(ctx, &want, &inside(r, fatal)?.errors)?;
        let text = String::from_utf8_lossy(&one);
        let r = sut(|| h::parser::text_plain(wrap(fatal, Error { input: &*text, code }))).or_else(crash)?;
        let e = inside(r, fatal)?;
        judge(ctx, text.as_bytes(), &shown(&e.input))?;
        if e.code != code {
            return bad("the kind of a parse error changed", format!("{code:?}: {e:?}"));
        }
        // Neither success nor a request for more is touched.
        let n = rng.below(1 << 20) as usize;
        let needed = if n % 8 == 0 { Needed::Unknown } else { Needed::new(n) };
        let passes = [
            matches!(sut(|| h::parser::bytes_verbose(Err(E::Incomplete(needed)))).or_else(crash)?, Err(E::Incomplete(x)) if x == needed),
            matches!(sut(|| h::parser::bytes_plain(Err(E::Incomplete(needed)))).or_else(crash)?, Err(E::Incomplete(x)) if x == needed),
            matches!(sut(|| h::parser::text_verbose(Err(E::Incomplete(needed)))).or_else(crash)?, Err(E::Incomplete(x)) if x == needed),
            matches!(sut(|| h::parser::text_plain(Err(E::Incomplete(needed)))).or_else(crash)?, Err(E::Incomplete(x)) if x == needed),
            matches!(sut(|| h::parser::bytes_verbose(Ok((&one[..], n as u32)))).or_else(crash)?, Ok((rest, v)) if rest == one && v == n as u32),
            matches!(sut(|| h::parser::bytes_plain(Ok((&one[..], n as u32)))).or_else(crash)?, Ok((rest, v)) if rest == one && v == n as u32),
            matches!(sut(|| h::parser::text_verbose(Ok((&*text, n as u32)))).or_else(crash)?, Ok((rest, v)) if rest == text && v == n as u32),
            matches!(sut(|| h::parser::text_plain(Ok((&*text, n as u32)))).or_else(crash)?, Ok((rest, v)) if rest == text && v == n as u32),
        ];
        if passes.contains(&false) {
            return bad("a success or a request for more input changed", format!("{needed:?} {n}: {passes:?}"));
        }
        ctx.bump(2 + fatal as usize);
        ctx.sample(|| format!("{:?} -> {:?}", String::from_utf8_lossy(&one), shown(&e.input).display));
        Ok(())
    });
    ctx.flush_bumps(&["entries of text", "entries of bytes", "recoverable errors", "final errors"]);
    ctx.require("entries of text", 10_000);
    ctx.require("entries of bytes", 5_000);
    ctx.require("recoverable errors", 5_000);
    ctx.require("final errors", 5_000);
    ctx.finish(
        "exploration",
        "random, valid, multi-byte, long and cut-off UTF-8 inputs in recoverable and final errors of up to 40 entries, over bytes and over text; text kept as text, other bytes kept as bytes, order, kinds (parser, context, character) and renderings compared; successes and requests for more input passed through; distinct by content",
        &[],
    )
}
