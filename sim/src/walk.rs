//! Symbols made by walking the grammar: cycles through it repeated to any depth, and elements
//! repeated side by side in any position.

use crate::{
    prng::Prng,
    scenario::{Sym, NTH},
};

#[derive(Clone, Copy, PartialEq)]
enum At {
    /// a whole symbol
    Symbol,
    /// what follows the first name: scopes, up to an @
    Chain,
    /// template arguments, up to an @
    Args,
    /// a type
    Type,
    /// parameters, up to an @
    Params,
}

use At::{Args, Chain, Params, Symbol, Type};

/// Every way to get from one to another: what comes before, and what must come after.
const STEPS: &[(At, At, &str, &str)] = &[
    (Symbol, Chain, "?x@", "@3HA"),
    (Symbol, Chain, "?f@", "@YAXXZ"),
    (Symbol, Chain, "?0", "@3HA"),
    (Symbol, Chain, "??A", "@QEAAXXZ"),
    (Symbol, Chain, "??1c@", "@QEAA@XZ"),
    (Symbol, Chain, "??__Kx@", "@YAXXZ"),
    (Symbol, Chain, "??_7", "@6B@"),
    (Symbol, Chain, "??_9", "@$BA@AA"),
    (Symbol, Chain, "??_B", "@51"),
    (Symbol, Chain, "??_R1A@A@A@A@", "@8"),
    (Symbol, Chain, "??_7c@@6B", "@@"),
    (Symbol, Args, "??$t@", "@@YAXXZ"),
    (Symbol, Args, "??$?Ht@", "@@YAXXZ"),
    (Symbol, Args, "??$?0t@", "@t@@QEAA@XZ"),
    (Symbol, Type, "?x@@3", "A"),
    (Symbol, Type, "?f@@YA", "XZ"),
    (Symbol, Type, "??Bc@@QEBA", "XZ"),
    (Symbol, Type, "??_R0", "@8"),
    (Symbol, Params, "?f@@YAX", "@Z"),
    (Symbol, Params, "?m@c@@QEAAX", "ZZ"),
    (Symbol, Symbol, "??__E", "@@YAXXZ"),
    (Symbol, Symbol, "??__F", "@YAXXZ"),
    (Chain, Chain, "a@", ""),
    (Chain, Chain, "0", ""),
    (Chain, Chain, "?A@", ""),
    (Chain, Args, "?$t@", "@"),
    (Chain, Args, "?$0", "@"),
    (Chain, Args, "?$?H", "@"),
    (Chain, Symbol, "?1?", ""),
    (Chain, Symbol, "?BA@?", ""),
    (Args, Type, "", ""),
    (Args, Type, "$$B", ""),
    (Args, Type, "$$CB", ""),
    (Args, Type, "$M", "0A@"),
    (Args, Chain, "$$Yx@", "@"),
    (Args, Symbol, "$1", ""),
    (Args, Symbol, "$H", "A@"),
    (Args, Symbol, "$J", "A@A@A@"),
    (Args, Symbol, "$E", ""),
    (Args, Symbol, "$MPAX1", ""),
    (Params, Type, "", ""),
    (Params, Type, "H", ""),
    (Params, Type, "", "0"),
    (Type, Type, "PA", ""),
    (Type, Type, "PEB", ""),
    (Type, Type, "AEIA", ""),
    (Type, Type, "$$QEA", ""),
    (Type, Type, "PEQc@@", ""),
    (Type, Type, "Y01", ""),
    (Type, Type, "PAY102$$CB", ""),
    (Type, Type, "P6A", "XZ"),
    (Type, Type, "P6A?A", "XZ"),
    (Type, Type, "P8c@@AE", "XZ"),
    (Type, Type, "$$A6A", "XZ"),
    (Type, Type, "$$A8@@AA", "XZ"),
    (Type, Params, "P6AX", "@Z"),
    (Type, Params, "P8c@@AEX", "@Z"),
    (Type, Params, "$$A6AX", "@_E"),
    (Type, Chain, "Vx@", "@"),
    (Type, Chain, "W4x@", "@"),
    (Type, Chain, "V0", "@"),
    (Type, Chain, "P8x@", "@AEHXZ"),
    (Type, Chain, "PEQx@", "@H"),
    (Type, Args, "V?$t@", "@@"),
    (Type, Args, "??$t@", "@@"),
    (Type, Chain, "PEQ?$t@H@", "@H"),
];

/// The least there can be of each.
fn least(at: At) -> &'static str {
    match at {
        Symbol => "?y@@3HA",
        Chain => "b@",
        Type => "H",
        Args | Params => "N",
    }
}

const KINDS: [At; 5] = [Symbol, Chain, Args, Type, Params];

fn walk(r: &mut Prng, from: At, to: At, most: usize) -> Option<(String, String)> {
    let (mut open, mut close) = (String::new(), String::new());
    let mut at = from;
    for i in 0..most {
        if at == to && (i > 0 || from != to) && r.one_in(2) {
            break;
        }
        let next: Vec<_> = STEPS.iter().filter(|x| x.0 == at).collect();
        let &&(_, b, o, c) = r.pick(&next);
        open.push_str(o);
        close.insert_str(0, c);
        if r.one_in(6) {
            // with something beside it
            match b {
                Chain => open.push_str(r.pick::<&str>(&["s@", "0", "?$u@H@"])),
                Args => open.push_str(r.pick::<&str>(&["H", "$0A@", "$$V", "Vs@@"])),
                Params => open.push_str(r.pick::<&str>(&["H", "PAH", "Vs@@"])),
                _ => {}
            }
        }
        at = b;
    }
    (at == to && !open.is_empty()).then_some((open, close))
}

/// `walk`, tried until it arrives.
fn arrive(r: &mut Prng, from: At, to: At) -> (String, String) {
    if from == to && r.one_in(2) && from == Symbol {
        return Default::default();
    }
    loop {
        let most = r.range(1, 5);
        if let Some(x) = walk(r, from, to, most) {
            return x;
        }
    }
}

/// A cycle through the grammar with the way to it, and how many levels it adds at most: to the
/// symbol of the given number of turns.
pub struct Cycle {
    open: String,
    o: String,
    at: At,
    c: String,
    close: String,
    pub around: usize,
    pub levels: usize,
}

impl Cycle {
    pub fn new(r: &mut Prng) -> Self {
        let at = *r.pick(&KINDS);
        let (open, close) = arrive(r, Symbol, at);
        let (mut o, c, levels) = loop {
            let most = r.range(1, 4);
            if let Some((o, c)) = walk(r, at, at, most) {
                break (o, c, most);
            }
        };
        if r.one_in(4) {
            o = distinct(&o);
        }
        Self { open, o, at, c, close, around: 8, levels }
    }

    pub fn turns(&self, n: usize) -> Sym {
        Sym(vec![rep(&self.open, 1), rep(&self.o, n), rep(least(self.at), 1), rep(&self.c, n), rep(&self.close, 1)])
    }
}

fn rep(s: &str, n: usize) -> (String, u32) {
    (s.to_owned(), n as u32)
}

/// With names that are others in each repetition.
fn distinct(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    for (i, &c) in b.iter().enumerate() {
        if c.is_ascii_lowercase() && b.get(i + 1) == Some(&b'@') {
            out.push(NTH);
        } else {
            out.push(c as char);
        }
    }
    out
}

/// A cycle through the grammar, repeated so that it nests about n levels deep.
pub fn deep(r: &mut Prng, n: usize) -> Sym {
    Cycle::new(r).turns(n)
}

/// Up to three kinds of element, repeated n times side by side.
pub fn wide(r: &mut Prng, n: usize) -> Sym {
    let at = *r.pick(&[Chain, Args, Params]);
    let (open, close) = arrive(r, Symbol, at);
    let mut v = vec![rep(&open, 1)];
    let kinds = r.range(1, 3);
    for _ in 0..kinds {
        let (o, c) = match at {
            Chain if r.one_in(3) => ((*r.pick(&["?$t@", "?$t@H", "?$0"])).to_owned(), "@".to_owned()),
            _ => element(r, at),
        };
        let mut elem = o + &c;
        if r.one_in(3) {
            elem = distinct(&elem);
        }
        v.push(rep(&elem, n / kinds + 1));
    }
    v.push(rep(least(at), 1));
    v.push(rep(&close, 1));
    Sym(v)
}

/// A list: what comes before, its element, and what comes after; with one name of the element (or of
/// what is around it) replaced by the marker.  The flag: every element names a type.
pub fn list(r: &mut Prng, marker: Option<&str>) -> (String, String, String, bool) {
    let at = *r.pick(&[Chain, Args, Params]);
    let (open, close) = arrive(r, Symbol, at);
    let (o, c) = element(r, at);
    let mut elem = o + &c;
    let mut pre = open;
    if let Some(m) = marker {
        let names = |s: &str| -> Vec<usize> {
            let b = s.as_bytes();
            (1..b.len()).filter(|&i| b[i] == b'@' && b[i - 1].is_ascii_lowercase()).map(|i| i - 1).collect()
        };
        let (inside, before) = (names(&elem), names(&pre));
        if !inside.is_empty() {
            let i = *r.pick(&inside);
            elem.replace_range(i..=i, m);
        } else if !before.is_empty() {
            let i = *r.pick(&before);
            pre.replace_range(i..=i, m);
        }
    }
    (pre, elem, least(at).to_owned() + &close, at == Params)
}

/// One complete element of a list: the way there must not consume the list itself.
fn element(r: &mut Prng, at: At) -> (String, String) {
    let next: Vec<_> = STEPS.iter().filter(|x| x.0 == at).collect();
    let &&(_, b, o, c) = r.pick(&next);
    if b == at {
        // it stays in the list
        return (o.to_owned(), c.to_owned());
    }
    let to = *r.pick(&KINDS);
    let (mut open, mut close) = (String::new(), String::new());
    let mut end = b;
    if to != b && r.one_in(2) {
        (open, close) = arrive(r, b, to);
        end = to;
    }
    (format!("{o}{open}{}", least(end)), close + c)
}

