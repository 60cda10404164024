//! Where symbols come from.

use crate::{grammar::Grammar, prng::Prng, scenario::Sym};

pub fn corpus() -> Vec<&'static str> {
    include_str!("../../corpus/symbols.txt").lines().filter(|l| !l.is_empty()).collect()
}

/// Symbols of which the mangling requires every byte.
pub fn tight() -> Vec<&'static str> {
    include_str!("../../corpus/tight.txt").lines().filter(|l| !l.is_empty()).collect()
}

pub struct Gen {
    pub corpus: Vec<&'static str>,
    pub tight: Vec<&'static str>,
}

impl Gen {
    pub fn new() -> Self {
        Self { corpus: corpus(), tight: tight() }
    }

    pub fn flags(&self, r: &mut Prng) -> u16 {
        match r.below(40) {
            0..=15 => 0,
            16..=27 => 1 << r.below(10),
            // bits without a meaning, too
            28 => r.next() as u16,
            29..=31 => (1 << r.below(10)) | (1 << r.below(10)),
            _ => (r.next() & 0x3ff) as u16,
        }
    }

    pub fn pick(&self, r: &mut Prng) -> Sym {
        Sym::lit(*r.pick(&self.corpus))
    }

    /// Ordinary, odd, broken or mildly hostile: whatever a symbol table may hold.
    pub fn any(&self, r: &mut Prng) -> Sym {
        match r.below(22) {
            20 | 21 => recalling(r),
            0..=9 => self.pick(r),
            10..=13 => Sym::lit(Grammar::new(r).symbol()),
            14 => Sym::lit(self.damaged(r, 3)),
            15 => self.unicode(r),
            16 => {
                let n = r.range(1, 24);
                if r.one_in(2) {
                    hostile(r, n, false)
                } else {
                    crate::walk::wide(r, n)
                }
            }
            17 => {
                let n = r.log(150);
                if r.one_in(2) {
                    nest(r.below(NESTS), n)
                } else {
                    crate::walk::deep(r, n)
                }
            }
            18 => {
                let s = *r.pick(&self.corpus);
                Sym::lit(cut(s, r.below(s.len() + 1)))
            }
            _ => Sym::lit(Grammar::new(r).symbol()),
        }
    }

    /// Symbols that share much: the same stem with small differences, so anything remembered
    /// under too weak a key is found out.
    pub fn alike(&self, r: &mut Prng, n: usize) -> Vec<Sym> {
        let base = if r.one_in(2) {
            (*r.pick(&self.corpus)).to_owned()
        } else if r.one_in(4) {
            recalling(r).text()
        } else {
            Grammar::new(r).symbol()
        };
        let mut out = vec![Sym::lit(base.clone())];
        while out.len() < n {
            let s = match r.below(8) {
                6 => {
                    // the same letters in another order
                    let mut b: Vec<char> = base.chars().collect();
                    let spots: Vec<usize> = (1..b.len().max(1) - 1)
                        .filter(|&i| b[i].is_ascii_lowercase() && b[i + 1].is_ascii_lowercase() && b[i] != b[i + 1])
                        .collect();
                    if !spots.is_empty() {
                        let i = *r.pick(&spots);
                        b.swap(i, i + 1);
                    }
                    b.into_iter().collect()
                }
                7 => {
                    // another type or qualifier
                    let mut b: Vec<char> = base.chars().collect();
                    let spots: Vec<usize> = (1..b.len()).filter(|&i| b[i].is_ascii_uppercase() || b[i].is_ascii_digit()).collect();
                    if !spots.is_empty() {
                        let i = *r.pick(&spots);
                        b[i] = if b[i].is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else { (b'A' + r.below(26) as u8) as char };
                    }
                    b.into_iter().collect()
                }
                0 => {
                    // one identifier letter changed: same length, same shape
                    let mut b: Vec<char> = base.chars().collect();
                    let spots: Vec<usize> = (1..b.len()).filter(|&i| b[i].is_ascii_lowercase()).collect();
                    if !spots.is_empty() {
                        let i = *r.pick(&spots);
                        b[i] = if b[i] == 'q' { 'r' } else { 'q' };
                    }
                    b.into_iter().collect()
                }
                1 => {
                    let i = r.below(base.len() + 1);
                    cut(&base, i)
                }
                2 => format!("{base}@"),
                3 => {
                    let mut x = base.clone();
                    if let Some(p) = x.find('@') {
                        x.insert_str(p, "q");
                    }
                    x
                }
                4 => self.damage_once(r, &base),
                _ => base.clone(),
            };
            out.push(Sym::lit(s));
        }
        out
    }

    pub fn unicode(&self, r: &mut Prng) -> Sym {
        let s = *r.pick(&self.corpus);
        let mut out = String::new();
        let subs = ["\u{e9}", "\u{3b1}\u{3b2}", "\u{6c49}", "\u{1f600}"];
        for c in s.chars() {
            if c.is_ascii_lowercase() && r.one_in(4) {
                out.push_str(r.pick::<&str>(&subs));
            } else {
                out.push(c);
            }
        }
        Sym::lit(out)
    }

    /// A symbol, and any place in it.
    fn place(&self, r: &mut Prng) -> (String, usize) {
        let s = match r.below(8) {
            0..=2 => (*r.pick(&self.corpus)).to_owned(),
            3 => self.unicode(r).text(),
            4 => (*r.pick(&self.tight)).to_owned(),
            _ => Grammar::new(r).symbol(),
        };
        let mut i = r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        (s, i)
    }

    /// A symbol in which some part that may have any length, or looks as if it might, has about n
    /// bytes: names, digits, literals, lists, or just whatever stands somewhere.
    pub fn stretched(&self, r: &mut Prng, n: usize) -> Sym {
        let (s, i) = self.place(r);
        let times = |x: &str| (x.to_owned(), (n / x.len().max(1) + 1) as u32);
        let (a, b) = s.split_at(i);
        let mid = match r.below(8) {
            0..=3 => {
                // what stands there
                let mut j = (i + r.log(6)).min(s.len());
                while !s.is_char_boundary(j) {
                    j += 1;
                }
                times(&s[i..j])
            }
            4 => times(r.pick::<&str>(&["A", "B", "P", "0", "?A", "a", "q", "_", "$", "?", "@", "?$AA", "\u{e9}"])),
            5 => {
                // a digit: of the number that starts there, if one does
                times(r.pick::<&str>(&["A", "B", "P", "I"]))
            }
            6 => {
                // at the end
                let tail = times(r.pick::<&str>(&["A", "a", "@", "H", "@@", "\u{6c49}", "?"]));
                return Sym(vec![one(&s), tail]);
            }
            _ => {
                // a name
                let names: Vec<usize> = s.bytes().enumerate().filter(|(_, c)| c.is_ascii_lowercase()).map(|x| x.0).collect();
                if names.is_empty() {
                    times("A")
                } else {
                    let (a, b) = s.split_at(*r.pick(&names));
                    return Sym(vec![one(a), times(r.pick::<&str>(&["n", "na", "\u{e9}"])), one(b)]);
                }
            }
        };
        Sym(vec![one(a), mid, one(b)])
    }

    /// A symbol with hostile numbers where numbers may stand.
    pub fn numbered(&self, r: &mut Prng) -> Sym {
        if r.one_in(2) {
            return Sym(vec![one(&Grammar::wild(r).symbol())]);
        }
        let (mut s, i) = self.place(r);
        let n = number(r);
        // where a digit or a number is already
        let spots: Vec<usize> = s.bytes().enumerate().filter(|(_, c)| c.is_ascii_digit()).map(|x| x.0).collect();
        if !spots.is_empty() && !r.one_in(4) {
            let i = *r.pick(&spots);
            s.replace_range(i..=i, &n);
        } else {
            s.insert_str(i, &n);
        }
        Sym::lit(s)
    }

    /// n storage faults on a corpus symbol.
    pub fn damaged(&self, r: &mut Prng, most: usize) -> String {
        let mut s = if r.one_in(4) {
            Grammar::new(r).symbol()
        } else {
            (*r.pick(&self.corpus)).to_owned()
        };
        for _ in 0..r.range(1, most) {
            s = self.damage_once(r, &s);
        }
        s
    }

    pub fn damage_once(&self, r: &mut Prng, s: &str) -> String {
        self.damage_kind(r, s).1
    }

    /// One storage or transport fault; the result is always UTF-8.
    pub fn damage_kind(&self, r: &mut Prng, s: &str) -> (&'static str, String) {
        let mut b = s.as_bytes().to_vec();
        let n = b.len();
        if n == 0 {
            return ("none", String::new());
        }
        let i = r.below(n);
        let len = r.log(16).min(n - i);
        let kind = match r.below(12) {
            0 | 1 => {
                b[i] ^= 1 << r.below(7);
                "bit flip"
            }
            2 => {
                b.truncate(i);
                "cut short"
            }
            3 => {
                b.drain(i..i + len);
                "lost stretch"
            }
            4 => {
                let x: Vec<u8> = b[i..i + len].to_vec();
                let times = r.log(12);
                for _ in 0..times {
                    for (k, v) in x.iter().enumerate() {
                        b.insert(i + k, *v);
                    }
                }
                "repeated stretch"
            }
            5 => {
                let other = r.pick(&self.corpus).as_bytes();
                let j = r.below(other.len());
                b.truncate(i);
                b.extend_from_slice(&other[j..]);
                "torn (tail of another)"
            }
            6 => {
                for x in &mut b[i..i + len] {
                    *x = 0;
                }
                "zeroed stretch"
            }
            7 => {
                let j = r.below(n);
                b.swap(i, j);
                "swapped bytes"
            }
            8 => {
                let other = r.pick(&self.corpus).as_bytes();
                let j = r.below(other.len());
                let m = len.min(other.len() - j);
                b[i..i + m].copy_from_slice(&other[j..j + m]);
                "overwritten stretch"
            }
            9 => {
                // letters with a meaning are likelier to get far
                let hot = b"?@$0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
                b[i] = *r.pick(hot);
                "overwritten byte"
            }
            10 => {
                let hot = ["?$", "??", "@@", "$$", "?A", "0", "9", "?1?", "$0", "_", "P6A", "P8", "Y", "$$A8@@", "$1?", "$H", "$F", "PEAAAAAAAAAAAAAAAA@", "?@", "??_R1", "??_C@_0", "$B", "$R4"];
                let h = r.pick(&hot).as_bytes();
                for (k, v) in h.iter().enumerate() {
                    b.insert(i + k, *v);
                }
                "inserted bytes"
            }
            _ => {
                let digits = r.log(40);
                for _ in 0..digits {
                    b.insert(i, b'A' + r.below(16) as u8);
                }
                "inserted number"
            }
        };
        (kind, String::from_utf8_lossy(&b).into_owned())
    }

    /// A symbol with one identifier replaced by `marker`; None if this pick has none.
    pub fn with_marker(&self, r: &mut Prng, marker: &str) -> Option<(String, String)> {
        let s = *r.pick(&self.corpus);
        let b = s.as_bytes();
        let mut spots = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_lowercase() {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                if j < b.len() && b[j] == b'@' && j > i + 1 {
                    spots.push((i, j));
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
        if spots.is_empty() {
            return None;
        }
        let &(i, j) = r.pick(&spots);
        let _ = marker;
        Some((s[..i].to_owned(), s[j..].to_owned()))
    }
}

/// Numbers as symbols spell them: at and around powers of two, small, huge, or far too long.
pub fn number(r: &mut Prng) -> String {
    let mut s = if r.one_in(3) { "?".to_owned() } else { String::new() };
    match r.below(8) {
        0 => s.push((b'0' + r.below(10) as u8) as char),
        1 => {
            let n = r.log(60);
            let c = *r.pick(b"ABHIOP") as char;
            s.extend(std::iter::repeat(c).take(n));
            s.push('@');
        }
        _ => {
            let x = (1_u128 << r.below(68)) as i128 + *r.pick(&[0, 0, -1, 1, -2, 2, 40]);
            s.push_str(&hex(x.max(0) as u128));
            s.push('@');
        }
    }
    s
}

/// A number as symbols spell it, without the terminator.
pub fn hex(x: u128) -> String {
    let digit = |c: u8| (c.wrapping_sub(if c <= b'9' { b'0' } else { b'a' - 10 }) + b'A') as char;
    format!("{x:x}").bytes().map(digit).collect()
}

/// A symbol that remembers names and parameters, and refers back to most of them.
pub fn recalling(r: &mut Prng) -> Sym {
    fn name(r: &mut Prng) -> String {
        let n = r.range(1, 4);
        (0..n).map(|_| (b'a' + r.below(6) as u8) as char).collect()
    }
    fn class(r: &mut Prng) -> String {
        let t = name(r);
        match r.below(6) {
            0 => format!("V{t}@@"),
            1 => format!("U{t}@{}@@", name(r)),
            2 => format!("W4{t}@@"),
            3 => format!("V?${t}@V{}@@V{}@@@", name(r), r.below(2)),
            4 => format!("V?${t}@V{}@@U?${}@$0A@@@@@", name(r), name(r)),
            _ => format!("V?${t}@{}@@", *r.pick(&["H", "N", "_J", "$0A@"])),
        }
    }
    let mut s = format!("?{}@", name(r));
    let mut names = 1;
    for _ in 0..r.below(3) {
        if r.one_in(3) {
            s.push_str(&format!("?${}@H@", name(r)));
        } else {
            s.push_str(&format!("{}@", name(r)));
        }
        names += 1;
    }
    s.push_str("@YAX");
    let mut params = 0;
    for _ in 0..r.range(2, 6) {
        if r.one_in(4) {
            s.push_str(*r.pick(&["PA", "PEB", "AEA"]));
        }
        s.push_str(&class(r));
        names += 1;
        params += 1;
    }
    for _ in 0..r.range(1, 8) {
        match r.below(5) {
            0 => s.push_str(&format!("{}", r.below(params))),
            1 => s.push_str(&format!("PAV{}@", r.below(names.min(10)))),
            2 => s.push_str(&format!("U?${}@V{}@H@@", name(r), r.below(2))),
            _ => s.push_str(&format!("V{}@", r.below(names.min(10)))),
        }
    }
    s.push_str("@Z");
    Sym::lit(s)
}

pub fn cut(s: &str, mut at: usize) -> String {
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    s[..at].to_owned()
}

fn rep(s: &str, n: usize) -> (String, u32) {
    (s.to_owned(), n as u32)
}

fn one(s: &str) -> (String, u32) {
    rep(s, 1)
}

pub const NESTS: usize = 16;

/// Constructs that nest, n levels deep; all but the ones at the end are valid for small n.
pub fn nest(kind: usize, n: usize) -> Sym {
    Sym(match kind {
        0 => vec![one("?x@@3"), rep("PA", n), one("HA")],
        1 => vec![one("?x@@3"), rep("AA", n), one("HA")],
        2 => vec![one("?x@@3"), rep("P6A", n), one("H"), rep("XZ", n), one("A")],
        3 => vec![one("?x@@3"), rep("V?$a@", n), one("H"), rep("@@", n), one("A")],
        4 => vec![one("?x@"), rep("?$a@V", n), one("b@@"), rep("@@", n), one("3HA")],
        5 => vec![one("?f@@YAX"), rep("P6AX", n), one("H"), rep("@Z", n), one("@Z")],
        6 => vec![rep("?x@?1?", n), one("?f@@YAXXZ"), rep("@4HA", n)],
        7 => vec![one("?x@@3"), rep("P8a@@AE", n), one("H"), rep("XZ", n), one("Qa@@")],
        8 => vec![one("?x@@3"), rep("PEQa@@", n), one("HEQa@@")],
        9 => vec![one("?x@@3"), rep("$$QEA", n), one("HA")],
        10 => vec![one("?x@@3"), rep("PAY01", n), one("HA")],
        11 => vec![rep("??$f@$1", n), one("?g@@3HA"), rep("@@YAXXZ", n)],
        12 => vec![one("?x@@3"), rep("V?$a@PAP6A", n), one("H"), rep("XZ@@", n), one("A")],
        13 => vec![one("?"), rep("?$", n)],
        14 => vec![one("?"), rep("x@?1??", n)],
        _ => vec![rep("??B", n), one("a@@QAEHXZ")],
    })
}

/// Whether `nest(kind, _)` is a proper symbol for moderate depths.
pub fn nest_valid(kind: usize) -> bool {
    kind < 13
}

const MIX: &[(&str, &str)] = &[
    ("PA", ""),
    ("AEA", ""),
    ("P6A", "XZ"),
    ("V?$a@", "@@"),
    ("P8c@@AE", "XZ"),
    ("PEQa@@", ""),
    ("PAY01", ""),
    ("V?$t@$1??$f@", "@@YAXXZ@@"),
    ("V?1??f@@YAX", "@Z@b@@"),
    ("P6AX", "@Z"),
    ("$$Q6A", "XZ"),
];

pub const MIXES: usize = MIX.len();

/// A mixture of nested constructs around one another.
pub fn mixed_nest(r: &mut Prng, n: usize) -> Sym {
    let k = r.range(1, 4);
    let chosen: Vec<_> = (0..k).map(|_| r.below(MIXES)).collect();
    mixture(&chosen, n / k + 1)
}

pub fn mixture(chosen: &[usize], times: usize) -> Sym {
    let open: String = chosen.iter().map(|&x| MIX[x].0).collect();
    let close: String = chosen.iter().rev().map(|&x| MIX[x].1).collect();
    Sym(vec![one("?x@@3"), rep(&open, times), one("H"), rep(&close, times), one("A")])
}

/// Deep types remembered as parameters and nested in one another by back-reference, so that the
/// text is far deeper than the parse; all of it inside t nested templates or scopes, the innermost
/// of which is rendered while they are still open.
pub fn ladder(r: &mut Prng, t: usize, n: usize, k: usize) -> Sym {
    let (o, c) = *r.pick(&[("PA", ""), ("PEB", ""), ("AEA", ""), ("P6AX", "@Z"), ("PAY01", "")]);
    let (fo, fc) = *r.pick(&[("P6AX", "@Z"), ("P8c@@AEX", "@Z")]);
    let mut v = Vec::new();
    let shape = if t == 0 { 0 } else { 1 + r.below(2) };
    match shape {
        0 => v.push(one("?f@@YAX")),
        1 => v.extend([one("?x@@3"), rep("V?$a@", t), one("P6AX")]),
        _ => v.extend([one("?x@"), rep("?$a@V", t), one("?$i@P6AX")]),
    }
    v.extend([rep(o, n), one("H"), rep(c, n)]);
    for i in 1..k.min(10) {
        v.extend([rep(o, n), one(&format!("{fo}{}{fc}", i - 1)), rep(c, n)]);
    }
    v.push(one("@Z"));
    match shape {
        0 => {}
        1 => v.extend([rep("@@", t), one("A")]),
        _ => v.extend([one("@@"), rep("@@", t), one("3HA")]),
    }
    Sym(v)
}

pub const HOSTILES: usize = 12;

/// Symbols whose text, memory or work grows much faster than they do. n is a size, roughly
/// 1..=80 for the expanding ones.
pub fn hostile(r: &mut Prng, n: usize, big: bool) -> Sym {
    let k = r.below(HOSTILES);
    hostile_kind(k, n, if big { 1 + r.log(200) } else { 1 })
}

pub fn hostile_kind(kind: usize, n: usize, m: usize) -> Sym {
    Sym(match kind {
        // cubic expansion by parameter back-references
        0 => vec![
            one("?f@@YAXPAHP6AX"), rep("0", n), one("@ZP6AX"), rep("1", n), one("@ZP6AX"),
            rep("2", n), one("@Z@Z"),
        ],
        // the same inside a template name, which is rendered to be remembered, m times
        1 => vec![
            one("?f@@YAX"),
            (format!("V?$a@P6AXPAHP6AX{}@ZP6AX{}@ZP6AX{}@Z@Z@@", "0".repeat(n), "1".repeat(n), "2".repeat(n / 4 + 1)), m as u32),
            one("@Z"),
        ],
        // doubling by template name back-references
        2 => {
            let mut v = vec![one("?f@@YAXV?$a@H@@")];
            for i in 0..n.min(9) {
                v.push((format!("V?$t@V{i}@V{i}@V{i}@@@"), 1));
            }
            v.push(one("@Z"));
            v
        }
        // many parameters
        3 => vec![one("?f@@YAXH"), rep("N", n * 30), one("@Z")],
        4 => vec![one("?f@@YAXPAH"), rep("0", n * 30), one("@Z")],
        // long scope chains
        5 => vec![one("?f@"), rep("a@", n * 10), one("@YAXXZ")],
        6 => vec![one("?f@"), rep("0", n * 25), one("@YAXXZ")],
        // long identifier
        7 => vec![one("?"), rep("n", n * n * 20), one("@@3HA")],
        // local scopes within a scope made of long remembered names
        8 => vec![
            (format!("?f@?$a@P6AXPAHP6AX{}@ZP6AX{}@Z@Z@", "0".repeat(n), "1".repeat(n)), 1),
            rep("?1??0@YAXXZ@", m.min(40)),
            one("@YAXXZ"),
        ],
        // template arguments
        9 => vec![one("??$f@"), rep("$0A@", n * 20), one("@@YAXXZ")],
        // array dimensions
        10 => vec![one(&format!("?x@@3PAY{}@", hex(n as u128 * 12))), rep("1", n * 12), one("HA")],
        // quartic
        _ => vec![
            one("?f@@YAXPAHP6AX"), rep("0", n), one("@ZP6AX"), rep("1", n), one("@ZP6AX"),
            rep("2", n), one("@ZP6AX"), rep("3", n), one("@Z@Z"),
        ],
    })
}
