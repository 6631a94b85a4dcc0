//! Reference model of the LZHUF wire format used by FBB/Winlink B2 (Yoshizaki's LZHUF with a
//! 2048-byte window and a 60-byte lookahead), written from the format description on its own terms:
//! arbitrary-length codes as bit vectors, tokens kept apart from the window, and a linear-time
//! canonical check of every code word. Nothing in here is shared with the code under test.

pub const WINDOW: usize = 2048;
pub const LOOK: usize = 60;
pub const MINLEN: usize = 3;
/// Greatest distance at which the encoder may look for a match.
pub const MAXDIST: usize = WINDOW - LOOK;
const LEAVES: usize = 256 + LOOK - 2; // 314
const NODES: usize = 2 * LEAVES - 1; // 627
const ROOT: usize = NODES - 1;
const FREQ_LIMIT: u32 = 0x8000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok {
    Lit(u8),
    /// `dist` counts back from the next output byte: 1 is the byte just produced.
    Copy { len: usize, dist: usize },
}

/// Adaptive Huffman tree. `son[i] >= NODES` marks the leaf of symbol `son[i] - NODES`.
struct Tree {
    freq: Vec<u32>,
    parent: Vec<usize>,
    leaf: Vec<usize>,
    son: Vec<usize>,
    rebuilds: usize,
}

impl Tree {
    fn new() -> Tree {
        let mut t = Tree {
            freq: vec![0; NODES],
            parent: vec![0; NODES],
            leaf: vec![0; LEAVES],
            son: vec![0; NODES],
            rebuilds: 0,
        };
        for s in 0..LEAVES {
            t.freq[s] = 1;
            t.son[s] = NODES + s;
            t.leaf[s] = s;
        }
        for (k, j) in (LEAVES..NODES).enumerate() {
            let i = 2 * k;
            t.freq[j] = t.freq[i] + t.freq[i + 1];
            t.son[j] = i;
            t.parent[i] = j;
            t.parent[i + 1] = j;
        }
        t
    }

    fn set_son(&mut self, at: usize, what: usize) {
        self.son[at] = what;
        if what >= NODES {
            self.leaf[what - NODES] = at;
        } else {
            self.parent[what] = at;
            self.parent[what + 1] = at;
        }
    }

    fn rebuild(&mut self) {
        self.rebuilds += 1;
        // Leaves keep their relative order with halved (rounded up) weights; internal nodes are
        // rebuilt by pairing in order and inserting each pair's node after all nodes not heavier.
        let mut list: Vec<(u32, usize)> = (0..NODES)
            .filter(|&i| self.son[i] >= NODES)
            .map(|i| ((self.freq[i] + 1) / 2, self.son[i]))
            .collect();
        assert_eq!(list.len(), LEAVES);
        let mut i = 0;
        while list.len() < NODES {
            let f = list[i].0 + list[i + 1].0;
            let at = list.partition_point(|x| x.0 <= f);
            // Inserting must not move an already referenced pair; it cannot, as `at >= i + 2`.
            assert!(at >= i + 2);
            list.insert(at, (f, i));
            i += 2;
        }
        // Insertions happen above every earlier pair index only if at > that index; verify shape.
        for (k, (f, s)) in list.into_iter().enumerate() {
            self.freq[k] = f;
            self.set_son(k, s);
        }
    }

    fn bump(&mut self, sym: usize) {
        if self.freq[ROOT] == FREQ_LIMIT {
            self.rebuild();
        }
        let mut c = self.leaf[sym];
        loop {
            self.freq[c] += 1;
            let k = self.freq[c];
            // Last node lighter than the new weight, to swap places with.
            let mut l = c;
            while l + 1 < NODES && self.freq[l + 1] < k {
                l += 1;
            }
            if l != c {
                self.freq[c] = self.freq[l];
                self.freq[l] = k;
                let (a, b) = (self.son[c], self.son[l]);
                self.set_son(l, a);
                self.set_son(c, b);
                c = l;
            }
            if c == ROOT {
                return;
            }
            c = self.parent[c];
        }
    }

    fn code(&self, sym: usize) -> Vec<bool> {
        let mut bits = Vec::new();
        let mut k = self.leaf[sym];
        while k != ROOT {
            bits.push(k & 1 == 1);
            k = self.parent[k];
        }
        bits.reverse();
        bits
    }
}

fn symbol(t: &Tok) -> usize {
    match *t {
        Tok::Lit(b) => b as usize,
        Tok::Copy { len, .. } => {
            assert!((MINLEN..=LOOK).contains(&len));
            256 + len - MINLEN
        }
    }
}

/// Code length in bits and code value of the upper six bits of a position.
fn upper_code(u: usize) -> (usize, usize) {
    // Lengths 3,4*3,5*8,6*12,7*24,8*16 in canonical order.
    const GROUPS: [(usize, usize); 6] = [(3, 1), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)];
    let mut code = 0usize;
    let mut first = 0usize;
    for (len, n) in GROUPS {
        if u < first + n {
            return (len, (code >> (8 - len)) + (u - first));
        }
        code += n << (8 - len);
        first += n;
    }
    unreachable!()
}

#[derive(Default)]
pub struct Written {
    pub bytes: Vec<u8>,
    pub bits: usize,
    pub longest_code: usize,
    pub rebuilds: usize,
}

struct BitWriter {
    bytes: Vec<u8>,
    n: usize,
}

impl BitWriter {
    fn put(&mut self, bit: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if bit {
            *self.bytes.last_mut().unwrap() |= 0x80 >> (self.n % 8);
        }
        self.n += 1;
    }
}

pub fn write_tokens(toks: &[Tok]) -> Written {
    let mut tree = Tree::new();
    let mut w = BitWriter { bytes: Vec::new(), n: 0 };
    let mut longest = 0;
    for t in toks {
        let s = symbol(t);
        let code = tree.code(s);
        longest = longest.max(code.len());
        for b in code {
            w.put(b);
        }
        tree.bump(s);
        if let Tok::Copy { dist, .. } = *t {
            // Up to 64 * 64 positions can be written; a 2048-byte window uses the lower half.
            let pos = dist - 1;
            let (l, c) = upper_code(pos >> 6);
            for i in (0..l).rev() {
                w.put(c >> i & 1 == 1);
            }
            for i in (0..6).rev() {
                w.put(pos >> i & 1 == 1);
            }
        }
    }
    Written { bits: w.n, bytes: w.bytes, longest_code: longest, rebuilds: tree.rebuilds }
}

pub struct Decoded {
    pub toks: Vec<Tok>,
    pub out: Vec<u8>,
    /// All requested bytes were produced.
    pub complete: bool,
    /// A copy read window bytes that no conforming stream can refer to.
    pub unspecified: bool,
    pub bits_used: usize,
    pub longest_code: usize,
    pub rebuilds: usize,
}

/// Decodes until at least `want` bytes are out or the bits run out. `out` may overshoot `want` by
/// the tail of the last copy.
pub fn decode(input: &[u8], want: usize) -> Decoded {
    let mut tree = Tree::new();
    let mut d = Decoded {
        toks: vec![],
        out: vec![],
        complete: false,
        unspecified: false,
        bits_used: 0,
        longest_code: 0,
        rebuilds: 0,
    };
    let mut n = 0usize;
    let mut bit = |n: &mut usize| -> Option<usize> {
        let b = *input.get(*n / 8)?;
        let r = (b >> (7 - *n % 8)) & 1;
        *n += 1;
        Some(r as usize)
    };
    'all: loop {
        if d.out.len() >= want {
            d.complete = true;
            break;
        }
        let start = n;
        let mut c = tree.son[ROOT];
        while c < NODES {
            match bit(&mut n) {
                Some(b) => c = tree.son[c + b],
                None => break 'all,
            }
        }
        d.longest_code = d.longest_code.max(n - start);
        let s = c - NODES;
        tree.bump(s);
        if s < 256 {
            d.toks.push(Tok::Lit(s as u8));
            d.out.push(s as u8);
        } else {
            let len = s - 256 + MINLEN;
            let mut v = 0usize;
            let mut l = 0usize;
            let upper = loop {
                match bit(&mut n) {
                    Some(b) => {
                        v = v << 1 | b;
                        l += 1;
                    }
                    None => break 'all,
                }
                if let Some(u) = (0..64).find(|&u| upper_code(u) == (l, v)) {
                    break u;
                }
                assert!(l <= 8);
            };
            let mut low = 0usize;
            for _ in 0..6 {
                match bit(&mut n) {
                    Some(b) => low = low << 1 | b,
                    None => break 'all,
                }
            }
            let dist = ((upper << 6 | low) & (WINDOW - 1)) + 1;
            d.toks.push(Tok::Copy { len, dist });
            let base = d.out.len() as isize - dist as isize;
            for k in 0..len as isize {
                // Before the first byte the window holds blanks; the last 60 bytes of it, which the
                // lookahead occupies, are not specified.
                let i = base + k;
                let b = if i >= 0 {
                    d.out[i as usize]
                } else {
                    if i < -(MAXDIST as isize) {
                        d.unspecified = true;
                    }
                    b' '
                };
                d.out.push(b);
            }
        }
    }
    d.bits_used = n;
    d.rebuilds = tree.rebuilds;
    d
}

/// The longest match (length, at least one distance) the encoder may use at `pos`.
pub fn longest_match(text: &[u8], pos: usize) -> usize {
    let limit = LOOK.min(text.len() - pos);
    let at = |i: isize| if i >= 0 { text[i as usize] } else { b' ' };
    let mut best = 0;
    for dist in 1..=MAXDIST {
        let p = pos as isize - dist as isize;
        if p < -(LOOK as isize) {
            break;
        }
        let mut l = 0;
        while l < limit && at(p + l as isize) == text[pos + l] {
            l += 1;
        }
        if l > best {
            best = l;
            if best == limit {
                break;
            }
        }
    }
    best
}

/// A greedy tokenisation of `text`, nearest longest match first.
pub fn tokenize(text: &[u8]) -> Vec<Tok> {
    let mut pos = 0;
    let mut toks = vec![];
    // Chains of earlier positions by their first three bytes keep this near-linear.
    while pos < text.len() {
        let limit = LOOK.min(text.len() - pos);
        let (mut best, mut bestd) = (0, 0);
        let at = |i: isize| if i >= 0 { text[i as usize] } else { b' ' };
        for dist in 1..=MAXDIST {
            let p = pos as isize - dist as isize;
            if p < -(LOOK as isize) {
                break;
            }
            let mut l = 0;
            while l < limit && at(p + l as isize) == text[pos + l] {
                l += 1;
            }
            if l > best {
                best = l;
                bestd = dist;
                if best == limit {
                    break;
                }
            }
        }
        if best >= MINLEN {
            toks.push(Tok::Copy { len: best, dist: bestd });
            pos += best;
        } else {
            toks.push(Tok::Lit(text[pos]));
            pos += 1;
        }
    }
    toks
}
