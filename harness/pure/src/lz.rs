//! C01..C05: the LZHUF codec.
use crate::common::*;
use crate::gen;
use crate::lzref::{self, Tok};
use plusendi::verif_hooks as h;
use std::sync::Arc;

fn encode(text: &[u8]) -> Result<Vec<u8>, Bad> {
    sut(|| h::lzhuf::encode(text)).or_else(|p| bad("the encoder panicked", format!("{p}; input {} bytes {}", text.len(), short_hex(text))))
}

fn decode(stream: &[u8], buffer: &mut [u8]) -> Result<bool, Bad> {
    sut(|| h::lzhuf::decode(stream, buffer))
        .or_else(|p| bad("the decoder panicked", format!("{p}; input {} bytes {}, {} bytes declared", stream.len(), short_hex(stream), buffer.len())))
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {i}: {} / {}", a.len(), b.len(), short_hex(&a[i..a.len().min(i + 16)]), short_hex(&b[i..b.len().min(i + 16)]))
}

/// C01: decode(encode(x)) == x.
pub fn c01(ctx: Arc<Ctx>) -> ! {
    let check = |ctx: &Ctx, kind: &'static str, text: &[u8]| -> Result<(), Bad> {
        let e = encode(text)?;
        let mut out = vec![0xA5; text.len()];
        let ok = decode(&e, &mut out)?;
        ctx.eval(1);
        ctx.count(&format!("texts: {kind}"), 1);
        ctx.count("bytes round-tripped", text.len() as u64);
        ctx.maximum("longest text", text.len() as u64);
        if !text.is_empty() {
            ctx.distinct(hash64(text));
        }
        if !ok {
            return bad("the compressed form ends too early", format!("{kind}: {} bytes {} -> {} bytes", text.len(), short_hex(text), e.len()));
        }
        if out != text {
            return bad("round trip changed the data", format!("{kind}: {}", first_diff(text, &out)));
        }
        ctx.sample(|| format!("{kind}: {} bytes -> {} -> same", text.len(), e.len()));
        Ok(())
    };
    // Every length up to a few windows' worth of lookahead, with several contents.
    ctx.run("lengths", ctx.n(600, 2600), 120, move |ctx, case, rng| {
        let n = (case % 1_000_000_000) as usize;
        check(ctx, "every length, random", &rng.bytes(n))?;
        check(ctx, "every length, one byte", &vec![rng.byte(); n])?;
        let p = rng.bytes(rng.clone().range(1, 70));
        check(ctx, "every length, periodic", &p.iter().cycle().take(n).copied().collect::<Vec<_>>())?;
        check(ctx, "every length, blanks", &vec![b' '; n])
    });
    ctx.run("mixed", ctx.n(1500, 12_000), 120, move |ctx, _, rng| {
        let (kind, t) = gen::text(rng, 9000);
        check(ctx, kind, &t)
    });
    ctx.run("long", ctx.n(8, 64), 300, move |ctx, _, rng| {
        let (kind, t) = gen::long(rng);
        check(ctx, kind, &t)
    });
    ctx.run("huge", ctx.n(2, 30), 600, move |ctx, _, rng| {
        let (kind, t) = gen::huge(rng);
        check(ctx, kind, &t)
    });
    ctx.run("deep", ctx.n(8, 48), 600, move |ctx, _, rng| {
        let t = gen::deep_text(rng);
        check(ctx, "deep codes", &t)
    });
    ctx.require("texts: deep codes", 8);
    ctx.finish(
        "exploration",
        "a case is a text (every length 0..600 x four contents; structured mixtures; texts beyond the tree rebuild; texts with codes over 16 bits); non-trivial if not empty, distinct by content hash",
        &["texts up to about 3 MB; contents are sampled, not enumerated"],
    )
}

/// C02: an independent decoder recovers the text from the encoder's output, which ends with the last code.
pub fn c02(ctx: Arc<Ctx>) -> ! {
    let check = |ctx: &Ctx, kind: &'static str, text: &[u8]| -> Result<(), Bad> {
        let e = encode(text)?;
        let d = lzref::decode(&e, text.len());
        ctx.eval(1);
        ctx.count(&format!("texts: {kind}"), 1);
        ctx.count("codes read by the reference", d.toks.len() as u64);
        ctx.count("tree rebuilds", d.rebuilds as u64);
        if d.longest_code > 16 {
            ctx.count("streams with a code over 16 bits", 1);
        }
        ctx.maximum("longest code (bits)", d.longest_code as u64);
        for t in &d.toks {
            if let Tok::Copy { len, dist } = *t {
                ctx.distinct_cheap("copy lengths", len as u64);
                ctx.distinct_cheap("copy distances", dist as u64);
            }
        }
        if !text.is_empty() {
            ctx.distinct(hash64(text));
        }
        if !d.complete {
            return bad("a standard decoder runs out of data", format!("{kind}: {} bytes {}", text.len(), short_hex(text)));
        }
        if d.out != text {
            return bad("a standard decoder reads something else", format!("{kind}: {}", first_diff(text, &d.out)));
        }
        if d.unspecified {
            return bad("a copy refers to unspecified window content", format!("{kind}: {} bytes", text.len()));
        }
        let used = (d.bits_used + 7) / 8;
        if used != e.len() {
            return bad("bytes after the last code", format!("{kind}: {} bytes written, the codes take {used}", e.len()));
        }
        if d.bits_used % 8 != 0 && e[used - 1] & (0xFFu8 >> (d.bits_used % 8)) != 0 {
            return bad("padding bits are not zero", format!("{kind}: last byte {:02x}, {} bits", e[used - 1], d.bits_used));
        }
        ctx.sample(|| format!("{kind}: {} bytes -> {} bytes, {} codes, longest code {} bits", text.len(), e.len(), d.toks.len(), d.longest_code));
        Ok(())
    };
    ctx.run("lengths", ctx.n(300, 1500), 120, move |ctx, case, rng| {
        let n = (case % 1_000_000_000) as usize;
        check(ctx, "every length, random", &rng.bytes(n))?;
        let p = rng.bytes(rng.clone().range(1, 70));
        check(ctx, "every length, periodic", &p.iter().cycle().take(n).copied().collect::<Vec<_>>())
    });
    ctx.run("mixed", ctx.n(1500, 12_000), 120, move |ctx, _, rng| {
        let (kind, t) = gen::text(rng, 9000);
        check(ctx, kind, &t)
    });
    ctx.run("long", ctx.n(8, 64), 300, move |ctx, _, rng| {
        let (kind, t) = gen::long(rng);
        check(ctx, kind, &t)
    });
    ctx.run("huge", ctx.n(2, 30), 600, move |ctx, _, rng| {
        let (kind, t) = gen::huge(rng);
        check(ctx, kind, &t)
    });
    ctx.run("deep", ctx.n(8, 48), 600, move |ctx, _, rng| {
        let t = gen::deep_text(rng);
        check(ctx, "deep codes", &t)
    });
    ctx.require("tree rebuilds", 4);
    ctx.require("streams with a code over 16 bits", 1);
    ctx.finish(
        "exploration",
        "as C01; each output is decoded by an independently written LZHUF decoder that also accounts for every bit",
        &["the reference was validated against the Winlink captures in /repo/samples, which third-party software produced"],
    )
}

/// C03: streams written by an independent encoder, with any legal choice of copies, are read exactly.
pub fn c03(ctx: Arc<Ctx>) -> ! {
    ctx.run("streams", ctx.n(2500, 20_000), 120, |ctx, _, rng| {
        let (kind, toks) = gen::tokens(rng);
        stream_case(ctx, kind, &toks, rng)
    });
    ctx.run("deep", ctx.n(8, 48), 600, |ctx, _, rng| {
        let t = gen::deep_text(rng);
        stream_case(ctx, "deep codes", &lzref::tokenize(&t), rng)
    });
    ctx.run("long", ctx.n(8, 40), 600, |ctx, _, rng| {
        let n = rng.range(33_000, 140_000);
        let toks = gen::many_tokens(rng, n);
        stream_case(ctx, "beyond the rebuild", &toks, rng)
    });
    ctx.run("huge", ctx.n(2, 30), 600, |ctx, _, rng| {
        let (kind, t) = gen::huge(rng);
        stream_case(ctx, kind, &lzref::tokenize(&t), rng)
    });
    // All lengths and all distances, once each, systematically.
    ctx.run("all-pairs", 58, 120, |ctx, case, rng| {
        let len = 3 + (case % 1_000_000_000) as usize;
        let mut toks: Vec<Tok> = (0..2048).map(|_| Tok::Lit(rng.byte())).collect();
        let mut dists: Vec<usize> = (1..=lzref::WINDOW).collect();
        rng.shuffle(&mut dists);
        for d in dists {
            toks.push(Tok::Copy { len, dist: d });
            if rng.chance(1, 3) {
                toks.push(Tok::Lit(rng.byte()));
            }
        }
        stream_case(ctx, "every length at every distance", &toks, rng)
    });
    ctx.require("streams: every length at every distance", 58);
    ctx.require("tree rebuilds", 8);
    ctx.require("streams with a code over 16 bits", 1);
    ctx.finish(
        "exploration",
        "a case is a sequence of literals and copies written by an independent encoder, decoded with its exact size and with shorter sizes; distinct by stream hash",
        &["every copy length at every distance is covered, but not every such pair in every tree state"],
    )
}

fn stream_case(ctx: &Ctx, kind: &'static str, toks: &[Tok], rng: &mut Rng) -> Result<(), Bad> {
    let w = lzref::write_tokens(toks);
    let text = gen::expand(toks);
    ctx.eval(1);
    ctx.count(&format!("streams: {kind}"), 1);
    ctx.count("codes written by the reference", toks.len() as u64);
    ctx.count("tree rebuilds", w.rebuilds as u64);
    ctx.maximum("longest code (bits)", w.longest_code as u64);
    if w.longest_code > 16 {
        ctx.count("streams with a code over 16 bits", 1);
    }
    for t in toks {
        if let Tok::Copy { len, dist } = *t {
            ctx.distinct_cheap("copy lengths", len as u64);
            ctx.distinct_cheap("copy distances", dist as u64);
        }
    }
    ctx.distinct(hash64(&w.bytes));
    let mut sizes = vec![text.len()];
    for _ in 0..3 {
        sizes.push(rng.range(0, text.len()));
    }
    for n in sizes {
        let mut out = vec![0xA5; n];
        if !decode(&w.bytes, &mut out)? {
            return bad("a conforming stream was cut short", format!("{kind}: {} of {} bytes, stream {}", n, text.len(), short_hex(&w.bytes)));
        }
        if out != text[..n] {
            return bad("a conforming stream was read as something else", format!("{kind}: {}", first_diff(&text[..n], &out)));
        }
        ctx.count("decodes compared", 1);
    }
    ctx.sample(|| format!("{kind}: {} codes, {} bytes -> {} bytes", toks.len(), w.bytes.len(), text.len()));
    Ok(())
}

/// C04: any bytes, any declared size: terminates without panic with exactly the bytes the format
/// says, or the end-of-data error exactly when the bits run out.
pub fn c04(ctx: Arc<Ctx>) -> ! {
    ctx.run("hostile", ctx.n(20_000, 250_000), 60, |ctx, _, rng| {
        let (kind, mut stream): (_, Vec<u8>) = match rng.below(6) {
            0 => ("random bytes", rng.bytes(rng.clone().size(600))),
            1 => ("constant bytes", vec![rng.byte(); rng.size(400)]),
            2 => ("sparse bits", (0..rng.size(400)).map(|_| if rng.chance(1, 6) { 1 << rng.below(8) } else { 0 }).collect()),
            3 => ("dense bits", (0..rng.size(400)).map(|_| if rng.chance(1, 6) { !(1 << rng.below(8)) } else { 0xFF }).collect()),
            _ => {
                let (_, toks) = gen::tokens(rng);
                let mut b = lzref::write_tokens(&toks).bytes;
                if rng.chance(1, 2) {
                    ("truncated stream", { let n = rng.range(0, b.len()); b.truncate(n); b })
                } else {
                    for _ in 0..rng.range(1, 4) {
                        if !b.is_empty() {
                            let i = rng.below(b.len() as u64) as usize;
                            b[i] ^= 1 << rng.below(8);
                        }
                    }
                    ("corrupted stream", b)
                }
            }
        };
        stream.truncate(6000);
        let want = match rng.below(4) {
            0 => rng.range(0, 4),
            1 => rng.range(0, 200),
            2 => rng.range(0, 5000),
            _ => {
                // Around what the stream really holds.
                let d = lzref::decode(&stream, 200_000);
                (d.out.len() as i64 + rng.range(0, 6) as i64 - 3).max(0) as usize
            }
        };
        hostile_case(ctx, kind, &stream, want)
    });
    ctx.run("huge", ctx.n(16, 100), 200, |ctx, _, rng| {
        let s = rng.bytes(rng.clone().range(20_000, 120_000));
        let want = rng.range(50_000, 600_000);
        hostile_case(ctx, "long random bytes", &s, want)
    });
    ctx.require("ended by end of data", 100);
    ctx.require("filled the buffer", 100);
    ctx.finish(
        "exploration",
        "a case is a byte string (random, patterned, truncated or corrupted stream) and a declared size, judged by the reference decoder: which outcome, and every produced byte; non-trivial if at least one code was read",
        &["bytes copied from window positions the format leaves unspecified before first use are not compared"],
    )
}

fn hostile_case(ctx: &Ctx, kind: &'static str, stream: &[u8], want: usize) -> Result<(), Bad> {
    let r = lzref::decode(stream, want);
    // Guard bytes on both sides notice writes outside the declared area.
    let mut area = vec![0xC3u8; want + 128];
    let ok = decode(stream, &mut area[64..64 + want])?;
    ctx.eval(1);
    ctx.count(&format!("inputs: {kind}"), 1);
    ctx.count(if ok { "filled the buffer" } else { "ended by end of data" }, 1);
    if !r.toks.is_empty() {
        ctx.distinct(hash64(stream) ^ (want as u64) << 1);
    }
    let about = || format!("{kind}: {} bytes {}, {want} declared", stream.len(), short_hex(stream));
    if area[..64].iter().chain(&area[64 + want..]).any(|&b| b != 0xC3) {
        return bad("wrote outside the buffer", about());
    }
    if ok != r.complete {
        return bad(
            if ok { "success although the data ran out" } else { "end-of-data error although the data suffices" },
            format!("{}; the stream holds {} bytes", about(), r.out.len()),
        );
    }
    if ok && !r.unspecified && area[64..64 + want] != r.out[..want] {
        return bad("produced other bytes than the format says", format!("{}; {}", about(), first_diff(&r.out[..want], &area[64..64 + want])));
    }
    ctx.sample(|| format!("{} -> {}", about(), if ok { "filled" } else { "end of data" }));
    Ok(())
}

/// C05: every repeat in reach is used, greedily and in full.
pub fn c05(ctx: Arc<Ctx>) -> ! {
    let check = |ctx: &Ctx, kind: &'static str, text: &[u8]| -> Result<(), Bad> {
        let e = encode(text)?;
        let d = lzref::decode(&e, text.len());
        ctx.eval(1);
        ctx.count(&format!("texts: {kind}"), 1);
        if d.out != text {
            // C02's business, but then nothing can be said about the copies.
            return bad("the output is not the text", format!("{kind}: {}", first_diff(text, &d.out)));
        }
        if text.len() > 3 {
            ctx.distinct(hash64(text));
        }
        let mut pos = 0;
        ctx.count("positions judged", d.toks.len() as u64);
        for t in &d.toks {
            let best = lzref::longest_match(text, pos);
            let used = match *t {
                Tok::Lit(_) => 0,
                Tok::Copy { len, dist } => {
                    ctx.distinct_cheap("copy lengths", len as u64);
                    ctx.distinct_cheap("copy distances", dist as u64);
                    len
                }
            };
            let expected = if best >= lzref::MINLEN { best } else { 0 };
            if used != expected {
                return bad(
                    "a repeat was not used in full",
                    format!("{kind}: at byte {pos} of {} a repeat of {best} bytes is in reach, the output copies {used}", text.len()),
                );
            }
            pos += used.max(1);
        }
        ctx.sample(|| format!("{kind}: {} bytes -> {} bytes, {} codes", text.len(), e.len(), d.toks.len()));
        Ok(())
    };
    ctx.run("mixed", ctx.n(700, 6000), 120, move |ctx, _, rng| {
        let (kind, t) = gen::text(rng, 7000);
        check(ctx, kind, &t)
    });
    // One repeat at each distance there is.
    ctx.run("distances", ctx.n(350, 12_000), 120, move |ctx, case, rng| {
        let dist = 3 + (case % 1_000_000_000) as usize % 2046;
        let len = rng.range(3, 60).min(dist);
        let word = rng.bytes(len);
        let mut t = rng.bytes(rng.clone().range(0, 2500));
        t.extend(&word);
        t.extend(rng.bytes(dist - len));
        t.extend(&word);
        t.extend(rng.bytes(rng.clone().range(0, 80)));
        check(ctx, "one repeat at a given distance", &t)
    });
    ctx.require("positions judged", 100_000);
    ctx.finish(
        "exploration",
        "a case is a text; every code of the output is compared with the longest repeat an exhaustive search finds in the window (1988 bytes back, 60 initial blanks) at that position",
        &["greedy parsing is the format's usual practice and what the samples show; the property asks for it"],
    )
}
