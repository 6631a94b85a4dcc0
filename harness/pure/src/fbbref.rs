//! Reference reading of the FBB B2 messages and control lines: plain recursive descent over the
//! whole input, written from the format description. Shares nothing with the code under test.

pub fn crc(bytes: &[u8]) -> u16 {
    // CRC-16/XMODEM, one bit at a time.
    let mut r: u16 = 0;
    for &b in bytes {
        for i in (0..8).rev() {
            let bit = (b >> i & 1) as u16;
            let top = r >> 15;
            r <<= 1;
            if top ^ bit == 1 {
                r ^= 0x1021;
            }
        }
    }
    r
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub title: Vec<u8>,
    pub offset: u32,
    pub crc16: u16,
    pub size: u32,
    pub payload: Vec<u8>,
    pub blocks: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict<T> {
    Good(T, usize),
    /// More bytes are needed before the message can be complete.
    Short,
    /// No continuation makes it good, and every byte its own lengths announce is there, or the byte
    /// that breaks the structure is.
    Bad,
    /// No continuation makes it good, but the announced bytes are not all there.
    Doomed,
}

/// Title and offset of a header's content, if well-formed.
pub fn header(h: &[u8]) -> Option<(Vec<u8>, u32)> {
    let i = h.iter().position(|&b| b == 0)?;
    let (title, rest) = (&h[..i], &h[i + 1..]);
    if !title.iter().all(|&b| (0x20..0x7F).contains(&b)) {
        return None;
    }
    let (&last, digits) = rest.split_last()?;
    if last != 0 || digits.is_empty() || !digits.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for d in digits {
        v = (v * 10 + (d - b'0') as u64).min(u64::from(u32::MAX) + 1);
    }
    Some((title.to_vec(), u32::try_from(v).ok()?))
}

pub fn message(data: &[u8]) -> Verdict<Msg> {
    let Some(&soh) = data.first() else { return Verdict::Short };
    if soh != 1 {
        return Verdict::Bad;
    }
    let Some(&hl) = data.get(1) else { return Verdict::Short };
    if hl > 88 {
        return Verdict::Bad;
    }
    let hl = hl as usize;
    if data.len() < 2 + hl {
        // Whatever the rest of the header will be, could it be good?
        return if header_may_be_good(&data[2..], hl) { Verdict::Short } else { Verdict::Doomed };
    }
    let Some((title, offset)) = header(&data[2..2 + hl]) else { return Verdict::Bad };
    let mut p = 2 + hl;
    let mut body: Vec<u8> = vec![];
    let mut blocks = vec![];
    let first_short = |blocks: &[usize]| blocks.first().map_or(false, |&n| n < 6);
    loop {
        let Some(&tag) = data.get(p) else { return if first_short(&blocks) { Verdict::Doomed } else { Verdict::Short } };
        match tag {
            2 => {
                let Some(&n) = data.get(p + 1) else { return if first_short(&blocks) { Verdict::Doomed } else { Verdict::Short } };
                let n = if n == 0 { 256 } else { n as usize };
                blocks.push(n);
                if data.len() < p + 2 + n {
                    return if first_short(&blocks) { Verdict::Doomed } else { Verdict::Short };
                }
                body.extend(&data[p + 2..p + 2 + n]);
                p += 2 + n;
            }
            4 => {
                let Some(&sum) = data.get(p + 1) else { return if first_short(&blocks) { Verdict::Doomed } else { Verdict::Short } };
                p += 2;
                let total = body.iter().fold(sum, |a, &b| a.wrapping_add(b));
                if total != 0 {
                    return Verdict::Bad;
                }
                let (crc16, size, payload) = if blocks.is_empty() {
                    (0, 0, vec![])
                } else if blocks[0] < 6 {
                    return Verdict::Bad;
                } else {
                    blocks[0] -= 6;
                    (u16::from_le_bytes([body[0], body[1]]), u32::from_le_bytes([body[2], body[3], body[4], body[5]]), body[6..].to_vec())
                };
                let covered: Vec<u8> = size.to_le_bytes().iter().copied().chain(payload.iter().copied()).collect();
                if crc(&covered) != crc16 {
                    return Verdict::Bad;
                }
                return Verdict::Good(Msg { title, offset, crc16, size, payload, blocks }, p);
            }
            _ => return Verdict::Bad,
        }
    }
}

fn header_may_be_good(got: &[u8], hl: usize) -> bool {
    // A good header of length `hl` starting with `got`?
    if hl < 3 {
        return false;
    }
    let missing = hl - got.len();
    match got.iter().position(|&b| b == 0) {
        None => got.iter().all(|&b| (0x20..0x7F).contains(&b)) && missing >= 3,
        Some(i) => {
            let digits = &got[i + 1..];
            // At least the closing NUL is missing.
            got[..i].iter().all(|&b| (0x20..0x7F).contains(&b))
                && digits.iter().all(|b| b.is_ascii_digit())
                && missing >= 1
                && !(digits.is_empty() && missing < 2)
                // Too large already, or by the time the zeros... any further digit only grows it.
                && {
                    let mut v: u64 = 0;
                    for d in digits.iter().copied().chain(std::iter::repeat(b'0').take(missing - 1)) {
                        v = (v * 10 + (d - b'0') as u64).min(1 << 40);
                    }
                    v <= u32::MAX as u64
                }
        }
    }
}

/// Builds the wire form. `blocks[0]` counts the six bytes of checksum and size too.
pub fn build(title: &[u8], offset: &str, size: u32, payload: &[u8], splits: &[usize]) -> Vec<u8> {
    let mut h = title.to_vec();
    h.push(0);
    h.extend(offset.as_bytes());
    h.push(0);
    let mut out = vec![1, h.len() as u8];
    out.extend(&h);
    let covered: Vec<u8> = size.to_le_bytes().iter().copied().chain(payload.iter().copied()).collect();
    let mut body = crc(&covered).to_le_bytes().to_vec();
    body.extend(&covered);
    let mut at = 0;
    for &n in splits {
        assert!((1..=256).contains(&n));
        out.push(2);
        out.push(n as u8);
        out.extend(&body[at..at + n]);
        at += n;
    }
    assert_eq!(at, body.len());
    out.push(4);
    let sum = body.iter().fold(0u8, |a, &b| a.wrapping_add(b));
    out.push(sum.wrapping_neg());
    out
}

// ------------------------------------------------------------------ control lines

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Addr {
    pub sender: Vec<u8>,
    pub mbo: Vec<u8>,
    pub recipient: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fbb {
    pub kind: u8,
    pub addr: Addr,
    pub id: Vec<u8>,
    pub size: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Winlink {
    pub id: Vec<u8>,
    pub usize_: u64,
    pub csize: u64,
    pub addr: Option<Addr>,
}

fn field(f: &[u8], max: usize) -> Option<Vec<u8>> {
    if f.is_empty() || f.len() > max || std::str::from_utf8(f).is_err() {
        None
    } else {
        Some(f.to_vec())
    }
}

fn number(f: &[u8]) -> Option<u64> {
    if f.is_empty() || f.len() > 6 || !f.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some(f.iter().fold(0, |v, d| v * 10 + (d - b'0') as u64))
}

/// The complete first line (without its CR) and the bytes it takes; `None` if no CR is there.
fn first_line(data: &[u8]) -> Option<(&[u8], usize)> {
    let i = data.iter().position(|&b| b == b'\r')?;
    Some((&data[..i], i + 1))
}

/// The value of a complete line, `None` if it is not well-formed or not complete.
pub fn fbb(data: &[u8]) -> Option<(Fbb, usize)> {
    let (line, used) = first_line(data)?;
    let f: Vec<&[u8]> = line.split(|&b| b == b' ').collect();
    if f.len() != 7 || (f[0] != b"FA" && f[0] != b"FB") || f[1].len() != 1 || !b"PBT".contains(&f[1][0]) {
        return None;
    }
    Some((
        Fbb {
            kind: f[1][0],
            addr: Addr { sender: field(f[2], 6)?, mbo: field(f[3], 40)?, recipient: field(f[4], 6)? },
            id: field(f[5], 12)?,
            size: number(f[6])?,
        },
        used,
    ))
}

pub fn winlink(data: &[u8]) -> Option<(Winlink, usize)> {
    let (line, used) = first_line(data)?;
    let f: Vec<&[u8]> = line.split(|&b| b == b' ').collect();
    if (f.len() != 5 && f.len() != 8) || f[0] != b"FC" || f[1] != b"EM" {
        return None;
    }
    let addr = if f.len() == 8 {
        Some(Addr { sender: field(f[5], 6)?, mbo: field(f[6], 40)?, recipient: field(f[7], 6)? })
    } else {
        None
    };
    Some((Winlink { id: field(f[2], 12)?, usize_: number(f[3])?, csize: number(f[4])?, addr }, used))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Choice {
    Accept(u64),
    Defer,
    Reject,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sel {
    Good(Vec<Choice>, usize),
    Short,
    Bad,
}

pub fn selection(data: &[u8], n: usize) -> Sel {
    let tag = b"FS ";
    for (i, &t) in tag.iter().enumerate() {
        match data.get(i) {
            None => return Sel::Short,
            Some(&b) if b != t => return Sel::Bad,
            _ => {}
        }
    }
    let mut p = 3;
    let mut out = vec![];
    for _ in 0..n {
        let Some(&b) = data.get(p) else { return Sel::Short };
        p += 1;
        out.push(match b {
            b'+' | b'Y' | b'H' => Choice::Accept(0),
            b'=' | b'L' => Choice::Defer,
            b'-' | b'N' | b'R' | b'E' => Choice::Reject,
            b'!' | b'A' => {
                let digits = data[p..].iter().take(6).take_while(|b| b.is_ascii_digit()).count();
                if digits < 6 && p + digits == data.len() {
                    // Another digit may follow.
                    return Sel::Short;
                }
                if digits == 0 {
                    return Sel::Bad;
                }
                let v = number(&data[p..p + digits]).unwrap();
                p += digits;
                Choice::Accept(v)
            }
            _ => return Sel::Bad,
        });
    }
    Sel::Good(out, p)
}
