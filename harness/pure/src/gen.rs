//! Text and stream generators for the compression properties.
use crate::common::*;
use crate::lzref::{self, Tok};

const WORDS: &[&str] = &[
    "the ", "message ", "traffic ", "KC1GSL ", "net ", "73 ", "de ", "routine ", "\r\n", "priority ", "winlink ", "ARRL ",
    "to ", "from ", "Subject: ", "Date: 2021/12/03 ", "Body: ", "    ", "check ", "number ",
];

/// A text of at most `max` bytes, of one of many shapes.
pub fn text(rng: &mut Rng, max: usize) -> (&'static str, Vec<u8>) {
    let n = rng.size(max);
    match rng.below(12) {
        0 => ("random", rng.bytes(n)),
        1 => {
            let k = rng.range(1, 5) as u64;
            let base = rng.byte();
            ("small alphabet", (0..n).map(|_| base.wrapping_add(rng.below(k) as u8)).collect())
        }
        2 => {
            let mut t = vec![];
            while t.len() < n {
                let b = rng.byte();
                t.extend(std::iter::repeat(b).take(rng.range(1, 150)));
            }
            t.truncate(n);
            ("runs", t)
        }
        3 => {
            let p = rng.bytes(rng.clone().range(1, 2100));
            ("periodic", p.iter().cycle().take(n).copied().collect())
        }
        4 | 5 => {
            let mut t = String::new();
            while t.len() < n {
                t.push_str(rng.pick(WORDS));
            }
            t.truncate(n);
            ("words", t.into_bytes())
        }
        6 => {
            // Repeats at chosen distances, near the edges of the window and of the position groups.
            let mut t = rng.bytes(rng.clone().range(0, 300));
            while t.len() < n {
                let d = match rng.below(5) {
                    0 => rng.range(1, 70),
                    1 => rng.range(250, 262),
                    2 => rng.range(1980, 2055),
                    3 => 64 * rng.range(1, 31) + rng.range(0, 2),
                    _ => rng.range(1, 2048),
                };
                let l = rng.range(2, 70);
                for _ in 0..l {
                    let b = if t.len() >= d { t[t.len() - d] } else { b' ' };
                    t.push(b);
                }
                for _ in 0..rng.range(0, 4) {
                    t.push(rng.byte());
                }
            }
            t.truncate(n);
            ("repeats at edges", t)
        }
        7 => {
            let mut t = vec![b' '; rng.range(0, 130)];
            t.extend(rng.bytes(n.min(500)));
            ("leading blanks", t)
        }
        8 => {
            // One byte value dominating, so that others get long codes.
            let b = rng.byte();
            ("skewed", (0..n).map(|_| if rng.chance(1, 40) { rng.byte() } else if rng.chance(1, 2) { b } else { b ^ (1 << rng.below(3)) }).collect())
        }
        9 => {
            let a = text(rng, max / 2).1;
            let mut t = a.clone();
            t.extend(text(rng, max / 3).1);
            t.extend(&a);
            t.truncate(max);
            ("repeated parts", t)
        }
        10 => ("near repeats at the window's edge", edge_repeats(rng, n.max(600))),
        _ => {
            let mut x = rng.byte();
            ("ramp", (0..n).map(|_| { x = x.wrapping_add(1 + (rng.chance(1, 50) as u8)); x }).collect())
        }
    }
}

/// Texts of more codes than fit before the tree is rebuilt.
pub fn long(rng: &mut Rng) -> (&'static str, Vec<u8>) {
    let n = rng.range(34_000, 110_000);
    match rng.below(3) {
        0 => ("long random", rng.bytes(n)),
        1 => ("long skewed", (0..n).map(|_| if rng.chance(1, 3) { rng.byte() } else { rng.byte() & rng.byte() & 0x3F }).collect()),
        _ => {
            let mut t = vec![];
            while t.len() < n {
                t.extend(text(rng, 4000).1);
            }
            ("long mixture", t)
        }
    }
}

/// More than a mebibyte: incompressible, compressible, and both in turn.
pub fn huge(rng: &mut Rng) -> (&'static str, Vec<u8>) {
    let n = rng.range(1 << 20, 3 << 20);
    match rng.below(4) {
        0 => ("huge random", rng.bytes(n)),
        1 => {
            let alphabet = rng.bytes(rng.clone().range(2, 12));
            ("huge, few letters", (0..n).map(|_| *rng.pick(&alphabet)).collect())
        }
        _ => {
            let mut t = vec![];
            while t.len() < n {
                t.extend(text(rng, 9000).1);
                if rng.chance(1, 20) {
                    t.extend(rng.bytes(rng.clone().range(1, 20_000)));
                }
            }
            ("huge mixture", t)
        }
    }
}

pub fn deep_text(rng: &mut Rng) -> Vec<u8> {
    let (levels, ratio) = *rng.pick(&[(9usize, 1.618f64), (9, 1.65), (10, 1.63), (9, 1.618)]);
    let tokens = rng.range(60_000, 120_000);
    let rare = rng.range(1500, 4000);
    deep(rng, tokens, rare, levels, ratio)
}

/// Text whose greedy parse uses copy lengths 3,4,5,... with Fibonacci-like frequencies, so that the
/// adaptive code of everything else grows to its greatest depth, with a rare byte every so often.
pub fn deep(rng: &mut Rng, tokens: usize, rare_every: usize, levels: usize, ratio: f64) -> Vec<u8> {
    let mut t: Vec<u8> = (0..200).map(|_| rng.byte()).collect();
    let raw: Vec<f64> = (0..levels).map(|k| ratio.powi(-(k as i32))).collect();
    let sum: f64 = raw.iter().sum();
    let weights: Vec<f64> = raw.iter().map(|x| x / sum).collect();
    let mut used = vec![0u64; levels];
    let mut since = 0;
    let mut emitted = 0;
    while emitted < tokens {
        since += 1;
        emitted += 1;
        if since >= rare_every {
            since = 0;
            t.push(rng.byte());
            continue;
        }
        // Largest deficit against the target weights, so that the frequencies stay in proportion.
        let k = (0..levels)
            .max_by(|&a, &b| {
                let d = |i: usize| weights[i] * emitted as f64 - used[i] as f64;
                d(a).partial_cmp(&d(b)).unwrap()
            })
            .unwrap();
        used[k] += 1;
        let len = 3 + k;
        let lo = t.len().saturating_sub(1900);
        // The copy before this one, plus this one's first byte, must be new within the window, or
        // the two copies merge.
        let mut ok = false;
        for _ in 0..20 {
            let p = lo + rng.below((t.len() - lo - len) as u64) as usize;
            let tail = t.len().saturating_sub(3);
            let mut probe = t[tail..].to_vec();
            probe.push(t[p]);
            if !t[lo..].windows(4).any(|w| w == &probe[..]) {
                let w = t[p..p + len].to_vec();
                t.extend(w);
                ok = true;
                break;
            }
        }
        if !ok {
            t.push(rng.byte());
        }
    }
    t
}

/// The text a token sequence stands for.
pub fn expand(toks: &[Tok]) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    for k in toks {
        match *k {
            Tok::Lit(b) => t.push(b),
            Tok::Copy { len, dist } => {
                for _ in 0..len {
                    let b = if t.len() >= dist { t[t.len() - dist] } else { b' ' };
                    t.push(b);
                }
            }
        }
    }
    t
}

/// A distance legal at output position `at`: within the window, not into its unspecified part.
fn dist(rng: &mut Rng, at: usize) -> usize {
    let max = (at + lzref::MAXDIST).min(lzref::WINDOW);
    let d = match rng.below(6) {
        0 => rng.range(1, 3),
        1 => rng.range(1, 64),
        2 => rng.range(250, 262),
        3 => rng.range(1985, 2048),
        4 => 64 * rng.range(1, 32) + rng.range(0, 1),
        _ => rng.range(1, 2048),
    };
    d.clamp(1, max)
}

/// A random legal token sequence of moderate size.
pub fn tokens(rng: &mut Rng) -> (&'static str, Vec<Tok>) {
    let n = rng.size(900);
    let copies = *rng.pick(&[0u64, 10, 50, 90, 100]);
    let kind = match copies {
        0 => "literals only",
        100 => "copies only",
        _ => "literals and copies",
    };
    let alphabet = *rng.pick(&[1u64, 2, 16, 256]);
    let lens = *rng.pick(&[(3usize, 60usize), (3, 6), (55, 60), (60, 60), (3, 3)]);
    let mut toks = vec![];
    let mut at = 0;
    for _ in 0..n {
        if rng.chance(copies, 100) {
            let len = rng.range(lens.0, lens.1);
            toks.push(Tok::Copy { len, dist: dist(rng, at) });
            at += len;
        } else {
            toks.push(Tok::Lit(rng.below(alphabet) as u8));
            at += 1;
        }
    }
    (kind, toks)
}

/// A long token sequence over a changing alphabet.
pub fn many_tokens(rng: &mut Rng, n: usize) -> Vec<Tok> {
    let mut toks = Vec::with_capacity(n);
    let mut at = 0;
    let mut alphabet = 256;
    for i in 0..n {
        if i % 3000 == 0 {
            alphabet = *rng.pick(&[2u64, 5, 40, 256]);
        }
        if rng.chance(1, 20) {
            let len = rng.range(3, 60);
            toks.push(Tok::Copy { len, dist: dist(rng, at) });
            at += len;
        } else {
            toks.push(Tok::Lit(rng.below(alphabet) as u8));
            at += 1;
        }
    }
    toks
}

/// Phrases about as long as the longest match that come back differing only near their ends,
/// placed so that the copies straddle the end of the circular window (the text starts at window
/// position 1988 and the window has 2048).
fn edge_repeats(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    while t.len() < n {
        // The next place where the window wraps, and a copy that starts within one match of it.
        let wrap = 60 + 2048 * ((t.len() + 1988) / 2048);
        let wrap = if wrap < t.len() + 130 { wrap + 2048 * rng.below(2) as usize } else { wrap };
        let second = match rng.below(3) {
            0 => wrap - 1,
            1 => wrap + rng.range(0, 8) - 4,
            _ => (wrap + rng.range(0, 122)).saturating_sub(61),
        };
        let len = if rng.chance(1, 2) { 60 } else { rng.range(54, 62) };
        let mut phrase = rng.bytes(len);
        if rng.chance(1, 4) {
            let k = rng.range(1, 4) as u64;
            phrase.iter_mut().for_each(|b| *b = b'a' + (*b as u64 % k) as u8);
        }
        let at = rng.range(len.min(second), second.min(1900).max(len.min(second)));
        let first = second.saturating_sub(at);
        while t.len() < first {
            t.push(rng.byte());
        }
        let blank = rng.chance(1, 2);
        let copy = |rng: &mut Rng, t: &mut Vec<u8>| {
            let mut p = phrase.clone();
            if rng.chance(2, 3) {
                let i = if rng.chance(1, 2) { len - 1 } else { rng.range(len - 8, len - 1) };
                p[i] = if blank { b' ' } else { rng.byte() };
            }
            t.extend(p);
        };
        copy(rng, &mut t);
        while t.len() < second {
            t.push(rng.byte());
        }
        copy(rng, &mut t);
        for _ in 0..rng.range(0, 3) {
            for _ in 0..rng.range(0, 700) {
                t.push(rng.byte());
            }
            copy(rng, &mut t);
        }
    }
    t
}
