//! For each property: how one run is drawn from a seed, and how its outcome is judged.

use crate::{
    exec::{show, snip, End, Engine, Outcome, RunResult},
    gen::{self, Gen},
    prng::Prng,
    rt::{end, tag, OpRec, EFFECTS},
    scenario::{Buf, Env, Fault, Op, Scenario, Sym, EVENTS},
    walk,
};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

fn v(class: impl Into<String>, detail: impl Into<String>) -> Option<Violation> {
    Some(Violation { class: class.into(), detail: detail.into() })
}

pub const CAP: u64 = 1 << 20;
const HEAP: u64 = 1 << 30;
pub const MARK: &str = "zqzqzqzqzqzq";

// ---------------------------------------------------------------- drawing runs

pub struct Tier {
    pub runs: u64,
}

pub fn tier(prop: &str, thorough: bool) -> Tier {
    let (q, t) = match prop {
        "C01" => (32_000, 400_000),
        "C02" => (4000, 120_000),
        "C03" => (6000, 120_000),
        "C04" => (5000, 80_000),
        "C05" => (10_000, 100_000),
        "C06" => (10_000, 150_000),
        "C07" => (1000, 12_000),
        "C08" => (80_000, 800_000),
        "C09" => (160_000, 3_000_000),
        "C10" => (90_000, 1_500_000),
        "C11" => (18_000, 100_000),
        "C12" => (40_000, 400_000),
        "C13" => (24_000, 250_000),
        "C14" => (20_000, 200_000),
        _ => (0, 0),
    };
    Tier { runs: if thorough { t } else { q } }
}

pub fn draw(prop: &str, seed: u64, index: u64, g: &Gen, e: &mut Engine) -> Scenario {
    let mut r = Prng::of(seed, prop, index);
    let mut sc = match prop {
        "C01" => c01(&mut r, g, e),
        "C02" => c02(&mut r, g, index),
        "C03" => c03(&mut r, g, e, index),
        "C04" => c04(&mut r, g, e, index),
        "C05" => c05(&mut r, g, e, index),
        "C06" => c06(&mut r, g),
        "C07" => c07(&mut r, g, e, index),
        "C08" => c08(&mut r, g, e, index),
        "C09" => c09(&mut r, g),
        "C10" => c10(&mut r, g, index),
        "C11" => c11(&mut r, g, e, index),
        "C12" => c12(&mut r, g),
        "C13" => c13(&mut r, g, e),
        "C14" => c14(&mut r, g),
        _ => panic!("unknown property {prop}"),
    };
    sc.prop = prop.into();
    let often = match prop {
        "C01" => 20,
        "C02" => 40,
        "C12" | "C13" | "C14" => 12,
        _ => return sc,
    };
    // the last calls of a thread are made while it ends
    if prop != "C13" {
        for t in &mut sc.threads {
            if !t.is_empty() && r.one_in(often) {
                let from = t.len() - r.range(1, t.len().min(3));
                let late = r.range(1, 2) as u8;
                t[from..].iter_mut().for_each(|op| op.leaving = late);
            }
        }
    }
    for op in sc.threads.iter_mut().flatten() {
        op.dropping = op.leaving == 0 && op.faults.is_empty() && op.stall.is_none() && r.one_in(often);
        for x in &mut op.nest {
            x.1.dropping = r.one_in(often);
        }
    }
    sc
}

fn draw_sched(r: &mut Prng, n: usize, total: usize) -> Vec<(u16, u32)> {
    let mut out = Vec::new();
    let total = total.max(64);
    if r.one_in(12) {
        // at atomic operations, if there are any, and between calls
        return (0..r.range(10, 200)).map(|_| (r.below(n) as u16, r.range(1, 6) as u32 | EVENTS)).collect();
    }
    match r.below(5) {
        // a few preemptions anywhere
        0 => {
            for _ in 0..r.range(2, 8) {
                out.push((r.below(n) as u16, r.range(1, total) as u32));
            }
        }
        1 => {
            for _ in 0..r.range(20, 300) {
                out.push((r.below(n) as u16, r.log(4096) as u32));
            }
        }
        // nearly every step
        2 => {
            for _ in 0..r.range(200, 1500) {
                out.push((r.below(n) as u16, r.range(1, 12) as u32));
            }
        }
        3 => {
            let q = r.log(2000);
            for i in 0..(total * n / q).clamp(4, 800) {
                out.push(((i % n) as u16, q as u32));
            }
        }
        // one thread creeps while the others run
        _ => {
            let slow = r.below(n);
            for _ in 0..r.range(10, 200) {
                out.push((slow as u16, r.range(1, 40) as u32));
                out.push((r.below(n) as u16, r.log(total) as u32));
            }
        }
    }
    out
}

fn pool(r: &mut Prng, g: &Gen) -> (Vec<Sym>, &'static str) {
    match r.below(4) {
        0 => {
            let n = r.range(2, 4);
            (g.alike(r, n), "alike")
        }
        1 => (vec![g.any(r)], "one symbol"),
        2 => {
            let n = r.range(2, 3);
            ((0..n).map(|_| g.pick(r)).collect(), "corpus")
        }
        _ => {
            let n = r.range(2, 6);
            ((0..n).map(|_| g.any(r)).collect(), "mixed")
        }
    }
}

fn draw_buf(r: &mut Prng) -> Buf {
    let content = match r.below(6) {
        0 => Sym::default(),
        1 => Sym::lit("stale"),
        2 => Sym(vec![("\u{e4}\u{f6}\u{1f980}".into(), r.log(40) as u32)]),
        3 => Sym(vec![("void __cdecl f(int)".into(), r.log(300) as u32)]),
        4 => Sym::lit("int x"),
        _ => Sym(vec![("x".into(), r.log(5000) as u32)]),
    };
    let cap = match r.below(8) {
        0 => 0,
        1 => r.below(40),
        2 => 64,
        3 => 4096,
        4 => r.log(1 << 21),
        5 => (1 << 20) - 1,
        6 => 1 << 20,
        _ => r.below(300),
    };
    Buf { content, cap }
}

/// Something that takes much of what there is only so much of: depth, text, elements, memory.
fn greedy(r: &mut Prng) -> Sym {
    match r.below(5) {
        0 => gen::nest(r.below(13), r.range(100, 620)),
        1 => {
            let n = r.range(50, 600);
            gen::mixed_nest(r, n)
        }
        2 => {
            let n = r.range(30, 600);
            walk::deep(r, n)
        }
        3 => gen::hostile_kind(*r.pick(&[3, 4, 5, 6, 9]), r.range(5, 60), 1),
        _ => gen::hostile_kind(r.below(gen::HOSTILES), r.range(5, 30), 1),
    }
}

/// Many threads have come and made a call; then some few of them meet, at a distance at which
/// whatever is handed out by number may be handed out twice.
fn meeting(r: &mut Prng, g: &Gen, e: &mut Engine) -> Scenario {
    let n = r.range(3, 140);
    let syms = match r.below(4) {
        0 => {
            let k = r.range(2, 4);
            g.alike(r, k)
        }
        1 => (0..r.range(1, 3)).map(|_| gen::recalling(r)).collect(),
        _ => pool(r, g).0,
    };
    let mut who = vec![r.below(n)];
    for _ in 0..r.range(1, 2) {
        let far = if r.one_in(4) { r.range(1, n) } else { 1 << r.below(8) };
        who.push((who[0] + far) % n);
    }
    who.dedup();
    let mk = |sym, flags| Op { sym, flags, ..Op::default() };
    let mut threads: Vec<_> = (0..n).map(|_| vec![mk(r.below(syms.len()), 0)]).collect();
    let mut sched = in_turn(n);
    for s in &mut sched {
        s.1 = e.reference(&syms[threads[s.0 as usize][0].sym], 0).steps as u32;
    }
    let mut total = 0;
    let plain = r.one_in(2);
    for &t in &who {
        for _ in 0..r.range(2, 16) {
            let op = mk(r.below(syms.len()), if plain || r.one_in(2) { 0 } else { g.flags(r) });
            total += e.reference(&syms[op.sym], op.flags).steps as usize;
            threads[t].push(op);
        }
    }
    let fine = r.range(2, 500);
    let turns: Vec<(u16, u32)> = if r.one_in(3) {
        draw_sched(r, who.len(), total)
    } else {
        (0..(total / fine).min(8000)).map(|_| (r.below(who.len()) as u16, r.range(1, 2 * fine) as u32)).collect()
    };
    sched.extend(turns.into_iter().map(|(t, q)| (who[t as usize] as u16, q)));
    Scenario { kind: "meeting".into(), syms, threads, sched, ..Scenario::default() }
}

/// A function whose parameters have names, and more that have the same names.
fn again_and_again(r: &mut Prng) -> Sym {
    let n = r.range(1, 8);
    let name = |r: &mut Prng| -> String {
        let c = b'a' + r.below(26) as u8;
        String::from_utf8(vec![c; r.range(1, 9)]).unwrap()
    };
    let mut s = format!("?{}@@YAX", name(r));
    for _ in 0..n {
        s.push_str(&format!("V{}@@", name(r)));
    }
    for _ in 0..r.range(1, 5) {
        s.push_str(&format!("V{}@", r.below(n + 1)));
    }
    s.push_str("@Z");
    Sym::lit(&s)
}

/// A few threads make many very short calls, so that the turns often end where calls begin and
/// end: what is taken there and given back is what they might fight over.
fn ins_and_outs(r: &mut Prng, g: &Gen, e: &mut Engine) -> Scenario {
    const SHORT: [&str; 7] = ["", "?", "?x@@3HA", "??@a@", "?f@@YAXXZ", "?x@@3PAVa@@A", "?x@?1??f@@YAXXZ@4HA"];
    let n = r.range(2, 6);
    let mut syms: Vec<Sym> = (0..r.range(2, 5)).map(|_| Sym::lit(*r.pick(&SHORT))).collect();
    if r.one_in(2) {
        syms.push(g.pick(r));
    }
    if r.one_in(2) {
        syms.push(again_and_again(r));
    }
    let steps: Vec<usize> = syms.iter().map(|s| e.reference(s, 0).steps as usize).collect();
    let mut total = 0;
    let threads: Vec<Vec<Op>> = (0..n)
        .map(|_| {
            (0..r.range(5, 40))
                .map(|_| {
                    let sym = r.below(syms.len());
                    total += steps[sym];
                    Op { sym, ..Op::default() }
                })
                .collect()
        })
        .collect();
    let fine = r.range(4, 80);
    let mut sched = Vec::new();
    let mut sum = 0;
    if r.one_in(2) {
        // turns that end at atomic operations and between calls
        let long = r.range(1, 6);
        sched.extend((0..r.range(40, 400)).map(|_| {
            let k = if r.one_in(6) { r.range(1, 40) } else { r.range(1, long) };
            (r.below(n) as u16, k as u32 | EVENTS)
        }));
        sum = total;
    }
    while sum < total && sched.len() < 4000 {
        let q = match r.below(4) {
            0 | 1 => r.range(1, fine),
            2 => *r.pick(&steps) + r.below(2 * fine),
            _ => r.log(4000),
        };
        sum += q;
        sched.push((r.below(n) as u16, q.max(1) as u32));
    }
    Scenario { kind: "ins and outs".into(), syms, threads, sched, ..Scenario::default() }
}

fn c01(r: &mut Prng, g: &Gen, e: &mut Engine) -> Scenario {
    if r.one_in(12) {
        return meeting(r, g, e);
    }
    if r.one_in(10) {
        return ins_and_outs(r, g, e);
    }
    let crowd = r.one_in(40);
    let n = if crowd { r.range(6, 70) } else { r.range(2, 5) };
    let (mut syms, mut kind) = pool(r, g);
    if r.one_in(20) {
        let k = r.range(1, 4);
        syms.extend((0..k).map(|_| greedy(r)));
        syms.drain(..r.below(k.min(syms.len() - k) + 1));
        kind = "greedy";
    }
    if crowd {
        kind = "crowd";
    }
    let nb = if r.one_in(3) { r.range(1, 3) } else { 0 };
    let mut total = 0;
    let mut threads = Vec::new();
    let same_flags = r.one_in(3);
    let f0 = g.flags(r);
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, if crowd { 2 } else { 4 }) {
            let sym = r.below(syms.len());
            let flags = if same_flags { f0 } else { g.flags(r) };
            total += e.reference(&syms[sym], flags).steps as usize;
            let buf = if nb > 0 && r.one_in(2) { Some(r.below(nb)) } else { None };
            ops.push(Op { sym, flags, buf, keep: buf.is_none() && r.one_in(3), ..Op::default() });
        }
        threads.push(ops);
    }
    let sched = draw_sched(r, n, total);
    Scenario {
        kind: kind.into(),
        syms,
        bufs: (0..nb).map(|_| draw_buf(r)).collect(),
        threads,
        sched,
        ..Scenario::default()
    }
}

fn in_turn(n: usize) -> Vec<(u16, u32)> {
    (0..n).map(|t| (t as u16, u32::MAX)).collect()
}

fn any_fault(r: &mut Prng) -> Fault {
    match r.below(8) {
        0 => Fault::AllocNth(r.range(1, 6) as u32),
        1 => Fault::AllocFrom(r.range(1, 6) as u32),
        2 => Fault::AllocRun(r.range(1, 4) as u32, r.range(1, 8) as u32),
        3 => Fault::AllocAbove(1 << r.range(3, 14)),
        4 => Fault::AllocBudget(1 << r.range(8, 14)),
        5 => Fault::WriteNth(r.log(40) as u32),
        6 => Fault::WriteCap(r.log(200) as u64),
        _ => Fault::NodeCap(r.log(40) as u32),
    }
}

fn c02(r: &mut Prng, g: &Gen, index: u64) -> Scenario {
    // a few very long histories: counters that wrap, tables that fill up
    if index % 1500 == 7 {
        let syms = vec![Sym::lit("?x@@3HA"), Sym::lit("?f@@YAXPAVa@@0@Z"), Sym::lit("?x@@3"), g.pick(r)];
        let ops = vec![
            Op { sym: 1, ..Op::default() },
            Op { sym: 0, again: 66_000, ..Op::default() },
            Op { sym: 1, ..Op::default() },
            Op { sym: 2, again: 66_000, ..Op::default() },
            Op { sym: 3, flags: g.flags(r), ..Op::default() },
            Op { sym: 1, buf: Some(0), again: 66_000, ..Op::default() },
            Op { sym: 3, ..Op::default() },
        ];
        return Scenario {
            kind: "marathon".into(),
            syms,
            bufs: vec![Buf::default()],
            threads: vec![ops],
            env: Env { reuse: true, ..Env::default() },
            ..Scenario::default()
        };
    }
    if index % 1500 == 8 {
        // more names than any table has room for, and than a short hash tells apart
        for _ in 0..20 {
            let Some((a, b)) = g.with_marker(r, MARK) else { continue };
            if a.len() + b.len() > 60 {
                continue;
            }
            let syms = vec![Sym::lit(format!("{a}{MARK}{b}")), g.pick(r)];
            let vary = Op { vary: true, again: 79_999, flags: g.flags(r), ..Op::default() };
            let calm = Op { sym: 1, ..Op::default() };
            return Scenario {
                kind: "marathon of names".into(),
                syms,
                threads: vec![vec![calm.clone(), vary.clone(), calm.clone(), vary, calm]],
                env: Env { reuse: true, ..Env::default() },
                ..Scenario::default()
            };
        }
    }
    if index % 1500 == 9 {
        // a great deal of text altogether
        let syms = vec![gen::hostile_kind(0, r.range(30, 45), 1), g.pick(r), gen::hostile_kind(1, r.range(20, 40), 2)];
        let mk = |sym, again, buf| Op { sym, again, buf, ..Op::default() };
        let ops = vec![mk(1, 0, None), mk(0, r.range(20, 40) as u32, None), mk(1, 0, None), mk(0, r.range(10, 30) as u32, Some(0)), mk(2, 5, None), mk(1, 0, Some(0))];
        return Scenario {
            kind: "marathon of text".into(),
            syms,
            bufs: vec![Buf::default()],
            threads: vec![ops],
            env: Env { reuse: true, ..Env::default() },
            ..Scenario::default()
        };
    }
    if index % 100 == 11 {
        // The same call at distances that counters, rings and tables are made for: whatever is
        // kept for a number of calls and told apart by a short number meets itself again.
        let short = |r: &mut Prng| loop {
            let s = g.pick(r);
            if s.len() < 90 {
                return s;
            }
        };
        let (a, b) = (short(r), if r.one_in(2) { Sym::lit("?x@@3HA") } else { short(r) });
        let top = if index % 1500 == 11 { 16 } else { 12 };
        let mut ops = Vec::new();
        let flags = g.flags(r);
        for k in 1..=top {
            for far in [1u32 << k, (1 << k) * 5 / 8] {
                let gap = match r.below(4) {
                    0 => (far + r.below(5) as u32).saturating_sub(2),
                    _ => far,
                };
                ops.push(Op { sym: 0, flags, ..Op::default() });
                if gap > 1 {
                    ops.push(Op { sym: 1, again: gap - 2, ..Op::default() });
                }
            }
        }
        ops.push(Op { sym: 0, flags, ..Op::default() });
        return Scenario {
            kind: "counted".into(),
            syms: vec![a, b],
            threads: vec![ops],
            env: Env { reuse: r.one_in(2), ..Env::default() },
            ..Scenario::default()
        };
    }
    if index % 50 == 12 {
        // Refused over and over, for whatever reason, and then something that asks for much.
        let mut syms = Vec::new();
        let mut ops = Vec::new();
        for _ in 0..r.range(2, 8) {
            let (sym, again, faults) = match r.below(10) {
                0 => (gen::nest(r.below(gen::NESTS), r.range(700, 1500)), r.range(100, 1500), Vec::new()),
                1 => (gen::hostile_kind(r.below(gen::HOSTILES), r.range(40, 70), 3), r.range(5, 40), Vec::new()),
                2 => (Sym::lit("?x@@3"), r.range(500, 5000), Vec::new()),
                3 | 4 => (Sym::lit(g.damaged(r, 3)), r.range(50, 500), Vec::new()),
                _ => (subject(r, g), r.range(100, 400), vec![any_fault(r)]),
            };
            let faulty = !faults.is_empty();
            ops.push(Op { sym: syms.len(), again: again as u32, faults, ..Op::default() });
            if faulty {
                // and undisturbed for once
                ops.push(Op { sym: syms.len(), ..Op::default() });
            }
            syms.push(sym);
        }
        for _ in 0..r.range(4, 12) {
            let sym = match r.below(5) {
                0 => gen::nest(r.below(gen::NESTS), r.range(50, 400)),
                1 => gen::hostile_kind(r.below(gen::HOSTILES), r.range(5, 30), 3),
                2 => {
                    let n = r.range(100, 20_000);
                    g.stretched(r, n)
                }
                3 => Sym::lit(format!("?f@@YAX{}@Z", (0..r.range(100, 2000)).map(|i| format!("PAVa{i}@@")).collect::<String>())),
                _ => g.any(r),
            };
            ops.push(Op { sym: syms.len(), flags: g.flags(r), ..Op::default() });
            syms.push(sym);
        }
        return Scenario {
            kind: "refusals".into(),
            syms,
            threads: vec![ops],
            ..Scenario::default()
        };
    }
    let huge = index % 500 == 10;
    let long = r.one_in(60);
    let mut syms = if !huge && r.one_in(3) {
        let n = r.range(3, 8);
        g.alike(r, n)
    } else {
        let n = if huge { 2500 } else if long { 400 } else { r.range(2, 30) };
        (0..n).map(|_| if huge { Sym::lit(crate::grammar::Grammar::new(r).symbol()) } else { g.any(r) }).collect()
    };
    // this one costs, so it is not repeated often
    let mut costly = usize::MAX;
    let mut budget = 10;
    if r.one_in(8) {
        costly = syms.len();
        syms.push(gen::hostile_kind(r.below(gen::HOSTILES), r.range(30, 70), 3));
    }
    if r.one_in(10) {
        syms.push(gen::nest(r.below(gen::NESTS), r.range(100, 3000)));
    }
    let nb = r.below(3);
    let many = r.one_in(40);
    let nt = if many { r.range(5, 200) } else if r.one_in(3) { r.range(2, 4) } else { 1 };
    let faulty = r.one_in(3);
    let n = if huge { 7000 } else if long { 2000 } else if many { r.range(nt, 3 * nt) } else { r.range(3, 60) };
    let mut threads = vec![Vec::new(); nt];
    for i in 0..n {
        let t = i * nt / n;
        let buf = if nb > 0 && r.one_in(2) { Some(r.below(nb)) } else { None };
        let faults = if faulty && r.one_in(4) { vec![any_fault(r)] } else { Vec::new() };
        let mut sym = r.below(syms.len());
        if sym == costly {
            budget -= 1;
            if budget < 0 {
                sym = 0;
            }
        }
        let again = if r.one_in(30) { r.log(40) as u32 } else { 0 };
        threads[t].push(Op {
            sym,
            flags: if r.one_in(2) { 0 } else { g.flags(r) },
            buf,
            faults,
            again: if sym == costly { 0 } else { again },
            keep: r.one_in(10),
            ..Op::default()
        });
    }
    Scenario {
        kind: if faulty { "history with faults" } else { "history" }.into(),
        syms,
        bufs: (0..nb).map(|_| draw_buf(r)).collect(),
        threads,
        sched: in_turn(nt),
        env: Env {
            reuse: r.one_in(4),
            place: if r.one_in(4) { r.next() >> 40 } else { 0 },
            ..Env::default()
        },
        ..Scenario::default()
    }
}

/// A symbol with an identifier padded so that its text gets close to, or beyond, 1 MiB.
/// Returns it with the short form, whose text determines that of the long one.
fn padded(r: &mut Prng, g: &Gen, e: &mut Engine, flags: u16, near: bool) -> Option<(Sym, Sym)> {
    for _ in 0..20 {
        let Some((a, b)) = g.with_marker(r, MARK) else { continue };
        let short = Sym::lit(format!("{a}{MARK}{b}"));
        let sc = Engine::solo(&short, flags);
        let res = e.run(&sc);
        if res.end != End::Done || res.ops[0].tag != tag::OK {
            continue;
        }
        let text = e.text();
        let m = text.matches(MARK).count();
        if m == 0 {
            continue;
        }
        let rest = text.len() - m * MARK.len();
        // the total to aim at: just around the limit, or such that it is hit somewhere inside
        let total = if near {
            (CAP as usize + r.below(7)) - 3
        } else {
            CAP as usize + r.below(text.len() + 40) - 20
        };
        let each = (total - rest) / m;
        let mut rem = (total - rest) % m;
        if rem > 0 && !near {
            rem = 0;
        }
        if rem > 0 {
            continue;
        }
        let unit = *r.pick(&["z", "z", "\u{e9}", "\u{6f22}"]);
        let pad = vec![(unit.into(), (each / unit.len()) as u32), ("z".into(), (each % unit.len()) as u32)];
        let mut long = vec![(a, 1)];
        long.extend(pad.into_iter().filter(|x| x.1 > 0));
        long.push((b, 1));
        return Some((Sym(long), short));
    }
    None
}

/// How often the element is there in the short forms a long list is compared with: enough for the
/// tables of remembered names and types to be full, so that each further one adds the same text.
const SHORT: [u32; 4] = [14, 15, 16, 21];

/// A list of very many elements, up to the limits on elements and text, as a scenario of its own.
fn long_list(r: &mut Prng, e: &mut Engine, flags: u16, buf: Option<usize>) -> Option<Scenario> {
    for _ in 0..20 {
        let (pre, elem, post, _) = walk::list(r, Some(MARK));
        let form = |n: u32| Sym(vec![(pre.clone(), 1), (elem.clone(), n), (post.clone(), 1)]);
        let mut syms = vec![Sym::default()];
        syms.extend(SHORT.iter().map(|&n| form(n)));
        let mut sc = Scenario { kind: "long list".into(), syms, ..Scenario::default() };
        sc.expect = vec![u64::from(SHORT[3]), 0];
        sc.threads = vec![vec![Op { flags, ..Op::default() }]];
        if list_text(&sc, e).is_none() {
            continue;
        }
        let n = match r.below(4) {
            0 => r.range(2000, 2070),
            1 => r.range(20, 700),
            2 => {
                // nearly as many as there may be, if each takes so many
                let k = r.range(2, 6);
                2048 / k + 3 - r.below(7)
            }
            _ => r.range(20, 2100),
        };
        let (text, marks) = {
            sc.expect = vec![n as u64, 0];
            let t = list_text(&sc, e)?;
            (t.len(), t.matches(MARK).count())
        };
        let rest = text - marks * MARK.len();
        let mut pad = r.range(1, 40);
        if marks > 0 && r.one_in(2) && rest < CAP as usize {
            // such that the limit is met at some piece or other
            let total = CAP as usize + r.below(text / n + 20) - 10;
            pad = ((total - rest) / marks).max(1);
        }
        let z = "z".repeat(pad);
        if (pre.len() + elem.len() * n + post.len()) + n * pad > 6 << 20 {
            continue;
        }
        sc.expect = vec![n as u64, pad as u64];
        sc.syms[0] = Sym(vec![(pre.replace(MARK, &z), 1), (elem.replace(MARK, &z), n as u32), (post.clone(), 1)]);
        if buf.is_some() {
            sc.bufs = vec![draw_buf(r)];
        }
        let mk = |sym: usize, buf: Option<usize>| Op { sym, flags, buf, ..Op::default() };
        sc.threads = vec![vec![mk(1, None), mk(0, None), mk(0, buf), mk(2, buf)]];
        return Some(sc);
    }
    None
}

/// The text a long list should have, from those of its short forms: expect holds the number of
/// elements and the length of the name the marker stands for (0: itself).
fn list_text(sc: &Scenario, e: &mut Engine) -> Option<String> {
    let flags = sc.threads.iter().flatten().next().map_or(0, |op| op.flags);
    let mut t = Vec::new();
    for sym in &sc.syms[1..=SHORT.len()] {
        let res = e.run(&Engine::solo(sym, flags));
        if res.end != End::Done || res.ops[0].tag != tag::OK {
            return None;
        }
        t.push(e.text());
    }
    let (a, b) = (t[0].as_bytes(), t[1].as_bytes());
    let p = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let d = b.len().checked_sub(a.len())?;
    let make = |n: usize| -> Option<String> {
        let mut v = b[..p].to_vec();
        for _ in SHORT[1] as usize..n {
            v.extend_from_slice(b.get(p..p + d)?);
        }
        v.extend_from_slice(&b[p..]);
        String::from_utf8(v).ok()
    };
    for i in 1..SHORT.len() {
        if make(SHORT[i] as usize)? != t[i] {
            return None;
        }
    }
    let (n, pad) = (*sc.expect.first()? as usize, *sc.expect.get(1)? as usize);
    let whole = make(n)?;
    Some(if pad == 0 { whole } else { whole.replace(MARK, &"z".repeat(pad)) })
}

/// A string that already holds what is about to be written, nearly, or the symbol itself; or a lot.
fn telling_buf(r: &mut Prng, e: &mut Engine, syms: &[Sym], flags: u16) -> Buf {
    let mut b = draw_buf(r);
    if r.one_in(30) {
        b.content = Sym(vec![("y".into(), (CAP as usize - 3 + r.below(6)) as u32)]);
    } else if r.one_in(3) {
        let sym = r.pick(syms);
        let mut text = sym.text();
        if !r.one_in(3) {
            let res = e.run(&Engine::solo(sym, flags));
            if res.end == End::Done && res.ops[0].tag == tag::OK && res.ops[0].len < 4000 {
                text = e.text();
            }
        }
        match r.below(4) {
            0 => text = gen::cut(&text, r.below(text.len() + 1)),
            1 => text.push_str(*r.pick(&["x", " ", "\0", "\u{e9}", "int"])),
            2 => text = text.replace(' ', "_"),
            _ => {}
        }
        b.content = Sym::lit(text);
    }
    b
}

/// A symbol whose text has a length at which buffers grow, fill up or change hands, and that length.
fn fitted(r: &mut Prng, g: &Gen, e: &mut Engine, flags: u16) -> Option<(Sym, usize)> {
    for _ in 0..10 {
        let Some((a, b)) = g.with_marker(r, MARK) else { continue };
        let res = e.run(&Engine::solo(&Sym::lit(format!("{a}{MARK}{b}")), flags));
        if res.end != End::Done || res.ops[0].tag != tag::OK || res.ops[0].len > 4000 {
            continue;
        }
        let text = e.text();
        let times = text.matches(MARK).count();
        if times == 0 {
            continue;
        }
        let rest = text.len() - times * MARK.len();
        let want = match r.below(4) {
            0 => 64 * r.range(1, 80),
            1 => 256 * r.range(1, 40),
            _ => 1 << r.range(4, 17),
        };
        let want = want + r.below(3) - 1;
        if want <= rest || (want - rest) % times != 0 {
            continue;
        }
        let pad = (want - rest) / times;
        return Some((Sym(vec![(a, 1), ("z".into(), pad as u32), (b, 1)]), want));
    }
    None
}

fn c03(r: &mut Prng, g: &Gen, e: &mut Engine, index: u64) -> Scenario {
    let flags = g.flags(r);
    if index % 40 == 3 {
        let near = r.one_in(2);
        if let Some((long, short)) = padded(r, g, e, flags, near) {
            let cap = *r.pick(&[0_usize, 100, 1 << 19, 1 << 20, (1 << 20) + 1, 3 << 19]);
            let bufs = vec![Buf { content: Sym::lit("stale"), cap }];
            let mk = |sym: usize, buf: Option<usize>| Op { sym, flags, buf, ..Op::default() };
            return Scenario {
                kind: "1 MiB".into(),
                syms: vec![long, short],
                bufs,
                threads: vec![vec![mk(1, Some(0)), mk(0, Some(0)), mk(1, Some(0)), mk(0, Some(0))]],
                ..Scenario::default()
            };
        }
    }
    if index % 40 == 11 {
        if let Some(sc) = long_list(r, e, flags, Some(0)) {
            return sc;
        }
    }
    let nb = r.range(1, 3);
    let mut syms: Vec<Sym> = (0..r.range(1, 6)).map(|_| g.any(r)).collect();
    if r.one_in(6) {
        syms.push(gen::hostile_kind(r.below(gen::HOSTILES), r.range(30, 70), 2));
    }
    let faulty = r.one_in(2);
    let mut ops = Vec::new();
    let mut bufs: Vec<Buf> = (0..nb).map(|_| telling_buf(r, e, &syms, flags)).collect();
    if r.one_in(4) {
        // text that just fits, just does not, or leaves one byte
        if let Some((sym, n)) = fitted(r, g, e, flags) {
            bufs[0] = Buf { content: if r.one_in(2) { Sym::default() } else { Sym::lit("stale") }, cap: (n + r.below(3)).saturating_sub(1) };
            ops.push(Op { sym: syms.len(), flags, buf: Some(0), ..Op::default() });
            syms.push(sym);
        }
    }
    for _ in 0..r.range(3, 25) {
        let sym = r.below(syms.len());
        let flags = if r.one_in(2) { flags } else { g.flags(r) };
        let mut faults = Vec::new();
        if faulty && r.one_in(2) {
            let o = e.reference(&syms[sym], flags);
            faults.push(match r.below(3) {
                0 => Fault::WriteNth(r.range(1, o.writes.max(1) as usize) as u32),
                1 => Fault::WriteCap(r.range(1, o.len.max(1) as usize) as u64),
                _ => Fault::NodeCap(r.below(o.nodes.max(1) as usize) as u32),
            });
        }
        ops.push(Op { sym, flags, buf: Some(r.below(nb)), faults, ..Op::default() });
    }
    Scenario {
        kind: if faulty { "reuse with refused output" } else { "reuse" }.into(),
        syms,
        bufs,
        threads: vec![ops],
        env: Env { reuse: r.one_in(3), fill: r.below(4) as u8, ..Env::default() },
        ..Scenario::default()
    }
}

/// Symbol pools for fault sweeps: mostly plain ones, so the fault is what happens.
fn subject(r: &mut Prng, g: &Gen) -> Sym {
    match r.below(14) {
        12 | 13 => gen::recalling(r),
        0 => gen::hostile_kind(r.below(gen::HOSTILES), r.range(2, 12), 2),
        1 => {
            let k = r.below(13);
            gen::nest(k, r.range(2, 40))
        }
        2 => g.unicode(r),
        3..=7 => Sym::lit(crate::grammar::Grammar::new(r).symbol()),
        _ => g.pick(r),
    }
}

fn c04(r: &mut Prng, g: &Gen, e: &mut Engine, index: u64) -> Scenario {
    let flags = g.flags(r);
    if index % 40 == 3 {
        if let Some((long, short)) = padded(r, g, e, flags, false) {
            let mk = |sym: usize, buf: Option<usize>| Op { sym, flags, buf, ..Op::default() };
            return Scenario {
                kind: "1 MiB".into(),
                syms: vec![long, short],
                bufs: vec![draw_buf(r)],
                threads: vec![vec![mk(1, None), mk(0, None), mk(0, Some(0)), mk(1, Some(0))]],
                ..Scenario::default()
            };
        }
    }
    if index % 20 == 11 {
        let buf = if r.one_in(2) { Some(0) } else { None };
        if let Some(sc) = long_list(r, e, flags, buf) {
            return sc;
        }
    }
    // every symbol of the corpus in turn, among drawn ones
    let turn = (index % 3 == 0).then_some(index as usize / 3);
    let (sym, flags) = match turn {
        Some(i) => (Sym::lit(g.corpus[i % g.corpus.len()]), if i < g.corpus.len() { 0 } else { flags }),
        None => (subject(r, g), flags),
    };
    let o = e.reference(&sym, flags);
    let other = g.pick(r);
    let mut ops = Vec::new();
    let most = 120;
    let kind = match if turn.is_some() { 0 } else { r.below(4) } {
        0 | 1 => {
            let n = o.writes as usize;
            for k in 0..n.min(most) {
                let k = if n <= most { k + 1 } else { r.range(1, n) };
                ops.push(vec![Fault::WriteNth(k as u32)]);
            }
            "each write refused"
        }
        2 => {
            let n = o.len.max(40) as usize;
            for k in 0..n.min(most) {
                let k = if n <= most { k + 1 } else { r.range(1, n + 1) };
                ops.push(vec![Fault::WriteCap(k as u64)]);
            }
            "output capped at each length"
        }
        _ => {
            let n = o.nodes as usize;
            for k in 0..n.min(most) {
                let k = if n <= most { k } else { r.below(n) };
                ops.push(vec![Fault::NodeCap(k as u32)]);
            }
            "each element refused"
        }
    };
    let into = r.one_in(2);
    let mut prog = Vec::new();
    for (i, faults) in ops.into_iter().enumerate() {
        let buf = if into { Some(0) } else { None };
        prog.push(Op { sym: 0, flags, buf, faults, ..Op::default() });
        if i % 7 == 0 {
            prog.push(Op { sym: i / 7 % 2, flags, buf, ..Op::default() });
        }
    }
    prog.push(Op { sym: 1, ..Op::default() });
    Scenario {
        kind: kind.into(),
        syms: vec![sym, other],
        bufs: if into { vec![draw_buf(r)] } else { Vec::new() },
        threads: vec![prog],
        ..Scenario::default()
    }
}

fn c05(r: &mut Prng, g: &Gen, e: &mut Engine, index: u64) -> Scenario {
    let flags = g.flags(r);
    let sym = if index % 3 == 0 {
        // every symbol of the corpus in turn, among drawn ones
        Sym::lit(g.corpus[index as usize / 3 % g.corpus.len()])
    } else if r.one_in(10) {
        gen::hostile_kind(r.below(gen::HOSTILES), r.range(10, 40), 3)
    } else if r.one_in(6) {
        g.any(r)
    } else {
        subject(r, g)
    };
    let o = e.reference(&sym, flags);
    let other = g.pick(r);
    let n = o.allocs as usize + 1;
    let peak = o.peak.max(16) as usize;
    let mut list = Vec::new();
    let kind = match r.below(5) {
        0 => {
            for k in 1..=n.min(60) {
                list.push(Fault::AllocNth(k as u32));
            }
            "each allocation fails"
        }
        1 => {
            for k in 1..=n.min(60) {
                list.push(Fault::AllocFrom(k as u32));
            }
            "all from the n-th fail"
        }
        2 => {
            for k in 1..=n.min(12) {
                for m in [2, 3, 5, 9] {
                    list.push(Fault::AllocRun(k as u32, m));
                }
            }
            "runs of failures"
        }
        3 => {
            for b in 0..24 {
                list.push(Fault::AllocAbove((1_u64 << b) + r.below(1 << b) as u64));
            }
            "large ones fail"
        }
        _ => {
            for _ in 0..40 {
                list.push(Fault::AllocBudget(r.range(1, peak + 600) as u64));
            }
            "memory budget"
        }
    };
    let into = r.one_in(2);
    let buf = if into { Some(0) } else { None };
    let mk = |sym, faults| Op { sym, flags, buf, faults, ..Op::default() };
    let mut prog = vec![mk(0, Vec::new()), mk(1, Vec::new())];
    for (i, f) in list.into_iter().enumerate() {
        prog.push(mk(usize::from(r.one_in(8)), vec![f]));
        if i % 5 == 0 {
            prog.push(mk(i / 5 % 2, Vec::new()));
        }
    }
    prog.push(Op { sym: 1, ..Op::default() });
    Scenario {
        kind: kind.into(),
        syms: vec![sym, other],
        bufs: if into { vec![Buf { cap: r.below(64), ..draw_buf(r) }] } else { Vec::new() },
        threads: vec![prog],
        env: Env { reuse: r.one_in(4), fill: r.below(4) as u8, seed: r.next(), ..Env::default() },
        ..Scenario::default()
    }
}

fn draw_env(r: &mut Prng) -> Env {
    Env {
        fill: r.below(4) as u8,
        reuse: r.one_in(2),
        seed: r.next() >> 11,
        scatter: r.one_in(2),
        place: if r.one_in(4) { r.next() >> 40 } else { 0 },
        ..Env::default()
    }
}

fn c06(r: &mut Prng, g: &Gen) -> Scenario {
    if r.one_in(6) {
        // What a call needs to set up once does not depend on how much it is asked for: short ones
        // first, then long ones of the same kind, and none of these has any memory to keep.
        let mut sc = Scenario { kind: "short, then long".into(), env: draw_env(r), ..Scenario::default() };
        let flags = g.flags(r);
        let mut ops = Vec::new();
        let mut late = Vec::new();
        for _ in 0..r.range(1, 3) {
            let n = 1 << r.range(6, 15);
            let (short, long) = match r.below(4) {
                0 => {
                    let Some((a, b)) = g.with_marker(r, MARK) else { continue };
                    let form = |n: usize| Sym(vec![(a.clone(), 1), ("z".into(), n as u32), (b.clone(), 1)]);
                    (form(5), form(n))
                }
                1 => {
                    let (a, x, b, _) = walk::list(r, None);
                    let n = n.min(if r.one_in(2) { 500 } else { 2100 });
                    let form = |n: usize| Sym(vec![(a.clone(), 1), (x.clone(), n as u32), (b.clone(), 1)]);
                    (form(15), form(n))
                }
                2 => {
                    let k = r.below(gen::NESTS);
                    (gen::nest(k, 10), gen::nest(k, n.min(700)))
                }
                _ => {
                    let k = r.below(gen::HOSTILES);
                    (gen::hostile_kind(k, 5, 2), gen::hostile_kind(k, r.range(10, 45), 2))
                }
            };
            let at = sc.syms.len();
            sc.syms.extend([short, long]);
            sc.expect.push(at as u64 + 1);
            ops.push(Op { sym: at, flags, again: 1, ..Op::default() });
            late.push(Op { sym: at + 1, flags, again: r.below(3) as u32, keep: r.one_in(4), ..Op::default() });
        }
        if !late.is_empty() {
            ops.extend(late);
            sc.threads = vec![ops];
            return sc;
        }
    }
    let mut syms: Vec<Sym> = (0..r.range(2, 8))
        .map(|_| if r.one_in(4) { Sym::lit(g.damaged(r, 2)) } else { g.any(r) })
        .collect();
    if r.one_in(8) {
        syms.push(gen::hostile_kind(r.below(gen::HOSTILES), r.range(20, 60), 2));
    }
    let nb = r.below(3);
    let n = syms.len();
    let mut ops = Vec::new();
    for i in 0..r.range(4, 30) {
        let buf = if nb > 0 && r.one_in(3) { Some(r.below(nb)) } else { None };
        let faults = if i >= 2 && r.one_in(8) {
            vec![if r.one_in(2) { Fault::WriteNth(r.log(60) as u32) } else { Fault::NodeCap(r.log(40) as u32) }]
        } else {
            Vec::new()
        };
        ops.push(Op {
            sym: r.below(n),
            flags: g.flags(r),
            buf,
            faults,
            keep: r.one_in(4),
            again: r.below(2) as u32,
            ..Op::default()
        });
    }
    Scenario {
        kind: "histories on a hostile allocator".into(),
        syms,
        bufs: (0..nb).map(|_| draw_buf(r)).collect(),
        threads: vec![ops],
        env: draw_env(r),
        ..Scenario::default()
    }
}

fn c07(r: &mut Prng, g: &Gen, e: &mut Engine, index: u64) -> Scenario {
    let flags = if r.one_in(2) { 0 } else { g.flags(r) };
    let mk = |sym: usize, flags: u16| Op { sym, flags, ..Op::default() };
    let env = Env { heap_limit: HEAP, reuse: r.one_in(2), ..Env::default() };
    match index % 8 {
        0 | 1 => {
            if let Some((long, short)) = padded(r, g, e, flags, true) {
                return Scenario {
                    kind: "around 1 MiB".into(),
                    syms: vec![long, short],
                    threads: vec![vec![mk(0, flags), mk(1, flags)]],
                    env,
                    ..Scenario::default()
                };
            }
        }
        3 => {
            let long = r.one_in(3);
            let syms: Vec<Sym> = (0..30)
                .map(|_| {
                    let n = r.log(20_000);
                    if long {
                        g.stretched(r, n)
                    } else {
                        g.numbered(r)
                    }
                })
                .collect();
            return Scenario {
                kind: if long { "stretched" } else { "hostile numbers" }.into(),
                threads: vec![(0..syms.len()).map(|i| mk(i, flags)).collect()],
                syms,
                env,
                ..Scenario::default()
            };
        }
        4 => {
            if let Some(sc) = long_list(r, e, flags, None) {
                return Scenario { env, ..sc };
            }
        }
        2 => {
            // too many types, in every way they can be listed
            let n = match r.below(3) {
                0 => r.range(2049, 2060),
                1 => r.range(2049, 6000),
                _ => r.range(6000, 70_000),
            };
            let one = |s: &str| (s.to_owned(), 1_u32);
            let many = |s: &str, k: usize| (s.to_owned(), k as u32);
            let sym = Sym(match r.below(8) {
                5.. => loop {
                    let (pre, elem, post, types) = walk::list(r, None);
                    if !types {
                        continue;
                    }
                    // if each of them shows in the text, each of them is taken for a type
                    let form = |n: u32| Sym(vec![(pre.clone(), 1), (elem.clone(), n), (post.clone(), 1)]);
                    let mut sc = Scenario { syms: vec![Sym::default()], ..Scenario::default() };
                    sc.syms.extend(SHORT.iter().map(|&n| form(n)));
                    let mut len = |n: u64| {
                        sc.expect = vec![n, 0];
                        list_text(&sc, e).map(|t| t.len())
                    };
                    if let (Some(a), Some(b)) = (len(30), len(31)) {
                        if b > a {
                            break form(n as u32).0;
                        }
                    }
                },
                0 => vec![one("?f@@YAX"), many("H", n), one("@Z")],
                1 => vec![one("??$f@"), many("H", n), one("@@YAXXZ")],
                2 => vec![one("?f@@YAX"), many("PAH", n / 2 + 1), one("@Z")],
                3 => vec![one("?x@@3V?$t@"), many("N", n), one("@@A")],
                _ => vec![one("?x@@3P6AXP6AX"), many("_N", n / 2 + 1), one("@Z"), many("M", n / 2 + 1), one("@ZA")],
            });
            return Scenario {
                kind: "too many types".into(),
                syms: vec![sym],
                threads: vec![vec![mk(0, flags)]],
                env,
                expect: vec![n as u64],
                ..Scenario::default()
            };
        }
        _ => {}
    }
    let sym = if r.one_in(3) {
        // the same thing again and again, wherever it may stand
        let n = if r.one_in(3) { r.log(2100) } else { r.range(300, 2100) };
        walk::wide(r, n)
    } else if r.one_in(6) {
        gen::hostile_kind(*r.pick(&[1, 8, 2]), r.range(20, 90), r.range(1, 200))
    } else {
        let n = r.range(5, 400);
        gen::hostile_kind(r.below(gen::HOSTILES), n, r.log(20))
    };
    if r.one_in(2) {
        let calm = g.pick(r);
        let total = e.reference(&calm, 0).steps as usize * 3 + 2000;
        return Scenario {
            kind: "expansion beside ordinary calls".into(),
            syms: vec![sym, calm],
            threads: vec![vec![mk(0, flags)], vec![mk(1, 0), mk(1, flags), mk(1, 0)]],
            sched: draw_sched(r, 2, total),
            env,
            ..Scenario::default()
        };
    }
    Scenario {
        kind: "expansion".into(),
        syms: vec![sym],
        bufs: vec![Buf::default()],
        threads: vec![vec![mk(0, flags), Op { buf: Some(0), ..mk(0, flags) }]],
        env,
        ..Scenario::default()
    }
}

/// Whether something nested 1, 2, ... 6 times is accepted, and its text does not multiply.
fn steady(nested: &mut dyn FnMut(usize) -> Outcome) -> bool {
    let o: Vec<_> = (1..7).map(nested).collect();
    let d: Vec<i64> = o.windows(2).map(|x| x[1].len as i64 - x[0].len as i64).collect();
    let d: Vec<i64> = d.windows(2).map(|x| x[1] - x[0]).collect();
    o.iter().all(|o| o.failure.is_empty() && o.tag == tag::OK) && d[3] <= d[2] + 2 && d[2] <= d[1] + 2
}

fn c08(r: &mut Prng, g: &Gen, e: &mut Engine, index: u64) -> Scenario {
    let (sym, kind, depth, valid) = match index % 5 {
        _ if index % 20 == 19 => {
            // what is accepted a few levels deep has to be up to 200 of them
            let c = walk::Cycle::new(r);
            let n = r.range(2, (200 - c.around) / c.levels);
            let valid = steady(&mut |k| e.reference(&c.turns(k), 0));
            (c.turns(n), "moderate cycle".into(), n * c.levels, valid)
        }
        _ if index % 20 == 18 => {
            let (k, around) = (r.range(1, 4), 4);
            let chosen: Vec<usize> = (0..k).map(|_| r.below(gen::MIXES)).collect();
            let levels = k * 2;
            let n = r.range(2, (200 - around) / levels);
            let valid = steady(&mut |k| e.reference(&gen::mixture(&chosen, k), 0));
            (gen::mixture(&chosen, n), "moderate mixture".into(), n * levels, valid)
        }
        3 if index % 20 == 8 => {
            // side by side, up to what is refused for its number and beyond
            let n = if r.one_in(3) { r.log(50_000) } else { r.range(500, 2100) };
            let sym = if r.one_in(8) { gen::hostile_kind(10, n / 12 + 1, 1) } else { walk::wide(r, n) };
            (sym, "wide".into(), n, false)
        }
        3 if index % 20 == 13 => {
            let n = if r.one_in(3) { r.range(20_000, 400_000) } else { r.log(100_000) };
            (g.stretched(r, n), "stretched".into(), n, false)
        }
        0 => {
            let k = (index / 5) as usize % gen::NESTS;
            // this one nests four constructs in each other at a time
            let n = if k == 12 { r.range(1, 50) } else { r.range(1, 200) };
            (gen::nest(k, n), format!("nest {k}"), n, gen::nest_valid(k))
        }
        4 => {
            let k = r.range(2, 10);
            let n = r.range(10, 640.min(2040 / k));
            let t = if r.one_in(3) { 0 } else { r.below(300_usize.saturating_sub(n / 3).max(1)) };
            (gen::ladder(r, t, n, k), "deep back-references".into(), n * k, false)
        }
        1 | 2 if index % 5 == 2 || index % 2 == 0 => {
            let n = match r.below(4) {
                0 => r.range(1, 200),
                1 => r.range(200, 1200),
                2 => r.range(1000, 20_000),
                _ => r.range(20_000, 150_000),
            };
            (walk::deep(r, n), "cycle".into(), n, false)
        }
        1 => {
            let k = (index / 5) as usize % gen::NESTS;
            let n = match r.below(3) {
                0 => r.range(200, 1200),
                1 => r.range(1000, 20_000),
                _ => r.range(20_000, 200_000),
            };
            (gen::nest(k, n), format!("nest {k}"), n, false)
        }
        _ => {
            let n = match r.below(3) {
                0 => r.range(100, 700),
                1 => r.range(500, 4000),
                _ => r.range(4000, 100_000),
            };
            (gen::mixed_nest(r, n), "mixture".into(), n, false)
        }
    };
    let flags = if r.one_in(2) { 0 } else { (r.next() & 0x3ff) as u16 };
    Scenario {
        kind,
        syms: vec![sym],
        bufs: vec![Buf::default()],
        threads: vec![vec![
            Op { sym: 0, flags, ..Op::default() },
            Op { sym: 0, flags, buf: Some(0), ..Op::default() },
        ]],
        env: Env { stack_kib: 1024, ..Env::default() },
        expect: vec![u64::from(valid), depth as u64],
        ..Scenario::default()
    }
}

fn c09(r: &mut Prng, g: &Gen) -> Scenario {
    // a stored symbol, damaged again and again, read after every fault
    let mut s = if r.one_in(3) {
        crate::grammar::Grammar::new(r).symbol()
    } else if r.one_in(8) {
        g.unicode(r).text()
    } else if r.one_in(12) {
        let n = r.range(2, 10);
        match r.below(3) {
            0 => gen::hostile_kind(r.below(gen::HOSTILES), n, 2).text(),
            1 => walk::deep(r, n).text(),
            _ => walk::wide(r, n).text(),
        }
    } else {
        (*r.pick(&g.corpus)).to_owned()
    };
    if r.one_in(8) {
        s = g.numbered(r).text();
    }
    let whole = s.clone();
    let mut syms = Vec::new();
    let mut ops = Vec::new();
    let mut kind = String::new();
    if r.one_in(20) {
        let n = r.log(5000);
        ops.push(Op::default());
        syms.push(g.stretched(r, n));
    }
    for i in 0..r.range(10, 60) {
        if i % 4 == 0 || s.len() > 3000 {
            s.clone_from(&whole);
        }
        let (k, t) = g.damage_kind(r, &s);
        s = t;
        if kind.is_empty() {
            kind = k.into();
        }
        ops.push(Op {
            sym: syms.len(),
            flags: if r.one_in(3) { g.flags(r) } else { 0 },
            ..Op::default()
        });
        syms.push(Sym::lit(s.clone()));
    }
    Scenario { kind, syms, threads: vec![ops], env: Env { fill: r.below(4) as u8, ..Env::default() }, ..Scenario::default() }
}

fn c10(r: &mut Prng, g: &Gen, index: u64) -> Scenario {
    let first = index < g.corpus.len() as u64;
    let tight = (!first && index % 2 == 0).then(|| g.tight[index as usize / 2 % g.tight.len()]);
    let made = match r.below(6) {
        _ if first => None,
        _ if tight.is_some() => tight.map(Into::into),
        0 | 1 => Some(crate::grammar::Grammar::new(r).symbol()),
        2 => Some({
            let n = r.range(1, 5);
            walk::deep(r, n).text()
        }),
        3 => Some(g.numbered(r).text()),
        _ => None,
    };
    let s = made.as_deref().unwrap_or(g.corpus[index as usize % g.corpus.len()]);
    let flags = if first || r.one_in(2) { 0 } else { g.flags(r) };
    let mut syms = vec![Sym::lit(s)];
    let mut cuts: Vec<usize> = (0..s.len()).filter(|&i| s.is_char_boundary(i)).collect();
    if cuts.len() > 400 {
        // all the way would be quadratic; take a random part and both ends
        let n = cuts.len();
        cuts = (0..n).filter(|&i| i < 60 || i + 60 > n || r.one_in(n / 250 + 1)).collect();
        cuts.retain(|&i| s.is_char_boundary(i));
    }
    for i in cuts {
        syms.push(Sym::lit(&s[..i]));
    }
    let buf = if r.one_in(2) { Some(0) } else { None };
    let ops = (0..syms.len()).map(|sym| Op { sym, flags, buf, ..Op::default() }).collect();
    Scenario {
        kind: if tight.is_some() { "short reads, every byte required" } else { "short reads" }.into(),
        syms,
        bufs: vec![Buf::default()],
        threads: vec![ops],
        ..Scenario::default()
    }
}

/// A symbol of up to some hundred thousand bytes: work that grows with the square of something
/// shows here even if it grows slowly.
fn long_one(r: &mut Prng) -> Sym {
    let n = r.range(3000, 100_000);
    match r.below(8) {
        0 => Sym(vec![("?".into(), 1), ((*r.pick(&["n", "ab", "\u{e9}", "_x0"])).into(), n as u32), ("@@3HA".into(), 1)]),
        1 => gen::nest(r.below(gen::NESTS), n / 3),
        2 => {
            let n = r.log(n / 3);
            walk::wide(r, n)
        }
        3 => {
            let n = r.log(n / 3);
            walk::deep(r, n)
        }
        4 => Sym(vec![("?f@".into(), 1), ((*r.pick(&["a@", "?A@", "?A0x1@", "0"])).into(), (n / 4) as u32), ("@YAXXZ".into(), 1)]),
        5 => Sym(vec![("??_C@_0".into(), 1), ("P".into(), (n / 7) as u32), ("@AA@".into(), 1), ((*r.pick(&["a", "?$AA", "?0", "?a"])).into(), n as u32), ("@".into(), 1)]),
        6 => Sym(vec![("?x@@3PAY".into(), 1), ((*r.pick(&["0", "1", "A"])).into(), n as u32), ("@HA".into(), 1)]),
        _ => gen::mixed_nest(r, n / 6),
    }
}

/// A symbol, often one with very many or very deep elements, with a name of n bytes somewhere or
/// so many bytes too much at its end; and which of its parts that is.
fn elastic(r: &mut Prng, g: &Gen) -> (Sym, usize) {
    let n = if r.one_in(6) { r.range(20_000, 100_000) } else { r.range(1000, 20_000) };
    let mut s = match r.below(8) {
        0..=3 => {
            let (pre, elem, post, _) = walk::list(r, None);
            Sym(vec![(pre, 1), (elem, if r.one_in(2) { r.range(1000, 2040) } else { r.log(1000) } as u32), (post, 1)])
        }
        4 => {
            let n = r.log(630);
            walk::deep(r, n)
        }
        5 => {
            let n = r.log(630);
            gen::nest(r.below(gen::NESTS), n)
        }
        6 => {
            let n = r.log(60);
            gen::hostile_kind(r.below(gen::HOSTILES), n, 1)
        }
        _ => g.any(r),
    };
    let mut spots = Vec::new();
    for (i, (t, times)) in s.0.iter().enumerate() {
        if *times == 1 {
            spots.extend(t.bytes().enumerate().filter(|x| x.1.is_ascii_lowercase()).map(|x| (i, x.0)));
        }
    }
    if spots.is_empty() || r.one_in(3) {
        let what = *r.pick(&["n", "\u{6c49}", "@"]);
        s.0.push((what.to_owned(), (n / what.len()) as u32));
        let at = s.0.len() - 1;
        return (s, at);
    }
    // what is in front of a list is met before it, what is behind it after it: both matter
    let &(i, k) = if r.one_in(2) { &spots[r.below(spots.len())] } else { &spots[spots.len() - 1] };
    let tail = s.0[i].0.split_off(k);
    let what = *r.pick(&["n", "na", "\u{e9}"]);
    s.0.insert(i + 1, (what.to_owned(), (n / what.len()) as u32));
    s.0.insert(i + 2, (tail, 1));
    (s, i + 1)
}

/// The second symbol of a comparison is the first with twice as much in one place.
pub fn tie(sc: &mut Scenario) {
    if sc.kind == "longer" {
        let mut s = sc.syms[0].clone();
        s.0[sc.expect[0] as usize].1 *= 2;
        sc.syms[1] = s;
    }
}

fn c11(r: &mut Prng, g: &Gen, e: &mut Engine, index: u64) -> Scenario {
    let mk = |sym: usize, flags: u16| Op { sym, flags, ..Op::default() };
    match index % 3 {
        0 => {
            // somebody stops for ever in the middle of a call
            let (syms, _) = pool(r, g);
            let n = r.range(2, 4);
            let mut threads = Vec::new();
            let mut total = 0;
            for t in 0..n {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 3) {
                    let sym = r.below(syms.len());
                    let flags = g.flags(r);
                    let steps = e.reference(&syms[sym], flags).steps;
                    total += steps as usize;
                    let stall = if t + 1 < n && ops.is_empty() && (t == 0 || r.one_in(3)) {
                        Some(1 + r.below(steps.max(2) as usize - 1) as u64)
                    } else {
                        None
                    };
                    ops.push(Op { stall, ..mk(sym, flags) });
                    if stall.is_some() {
                        break;
                    }
                }
                threads.push(ops);
            }
            let sched = draw_sched(r, n, total);
            Scenario { kind: "stalled".into(), syms, threads, sched, ..Scenario::default() }
        }
        1 if r.one_in(3) => {
            // what one more byte costs, beside much else
            let (sym, at) = elastic(r, g);
            let flags = g.flags(r);
            let step_limit = work_limit(sym.len() as u64 * 2, 0);
            let mut sc = Scenario {
                kind: "longer".into(),
                syms: vec![sym, Sym::default()],
                threads: vec![vec![mk(0, flags), mk(1, flags)]],
                env: Env { step_limit, reuse: true, ..Env::default() },
                expect: vec![at as u64],
                ..Scenario::default()
            };
            tie(&mut sc);
            sc
        }
        1 => {
            let n = r.range(20, 90);
            let sym = if r.one_in(25) {
                long_one(r)
            } else if r.one_in(8) {
                let n = r.log(20_000);
                g.stretched(r, n)
            } else if r.one_in(6) {
                // side by side as often as half a megabyte allows
                loop {
                    let n = r.log(150_000);
                    let sym = walk::wide(r, n);
                    if sym.len() < 1 << 19 {
                        break sym;
                    }
                }
            } else if r.one_in(3) {
                let n = r.log(4000);
                match r.below(3) {
                    0 => gen::nest(r.below(gen::NESTS), n),
                    1 => walk::deep(r, n),
                    _ => walk::wide(r, n),
                }
            } else if r.one_in(40) {
                gen::hostile_kind(1, n, r.range(2, 30))
            } else {
                gen::hostile_kind(r.below(gen::HOSTILES), n, r.range(1, 3))
            };
            let flags = g.flags(r);
            let step_limit = work_limit(sym.len() as u64, 0);
            Scenario {
                kind: "hostile".into(),
                syms: vec![sym],
                threads: vec![vec![mk(0, flags)]],
                // what is written adds to it as the call goes on
                env: Env { step_limit, reuse: true, ..Env::default() },
                ..Scenario::default()
            }
        }
        _ => {
            let mut syms = Vec::new();
            for _ in 0..30 {
                syms.push(match r.below(3) {
                    0 => g.any(r),
                    1 => {
                        // a stretch repeated very often
                        let s = *r.pick(&g.corpus);
                        let i = r.below(s.len());
                        let mut j = (i + r.log(12)).min(s.len());
                        let mut i = i;
                        while !s.is_char_boundary(i) {
                            i -= 1;
                        }
                        while !s.is_char_boundary(j) {
                            j += 1;
                        }
                        Sym(vec![(s[..i].into(), 1), (s[i..j].into(), r.log(1500) as u32), (s[j..].into(), 1)])
                    }
                    _ => Sym::lit(g.damaged(r, 4)),
                });
            }
            let ops = (0..syms.len()).map(|i| mk(i, 0)).collect();
            Scenario { kind: "malformed".into(), syms, threads: vec![ops], ..Scenario::default() }
        }
    }
}

fn c12(r: &mut Prng, g: &Gen) -> Scenario {
    let mut env = draw_env(r);
    if r.one_in(24) {
        // many names and references to all of them, many times: if hashes or sampling decide
        // anything, they get it wrong some time
        env.place = r.next() >> 40;
        env.pid = r.range(1, 4_000_000) as u32;
        let len = r.range(1, 6);
        let name = |r: &mut Prng| -> String { (0..len).map(|_| (b'a' + r.below(26) as u8) as char).collect() };
        let mut s = "?f@@YAX".to_owned();
        for _ in 0..9 {
            s.push_str(&format!("V{}@@", name(r)));
        }
        for _ in 0..4 {
            s.push_str(&format!("V{}@", r.range(1, 8)));
        }
        s.push_str("@Z");
        let op = Op { again: 199, ..Op::default() };
        return Scenario { kind: "many names".into(), syms: vec![Sym::lit(s)], threads: vec![vec![op]], env, ..Scenario::default() };
    }
    let syms: Vec<Sym> = (0..r.range(1, 6)).map(|_| g.any(r)).collect();
    env.clock = *r.pick(&[0, 1, 1_700_000_000, 4_102_444_800, -86_400, 2_147_483_647]);
    for _ in 0..r.below(4) {
        let by = *r.pick(&[-1, 1, 3600, -3600, 86_400 * 365, -86_400 * 365]);
        env.jumps.push((r.log(12) as u32, by));
    }
    env.jumps.sort_unstable();
    env.getenv = if r.one_in(3) {
        None
    } else {
        Some((*r.pick(&["1", "0", "", "full", "true", "off", "16", "-1"])).into())
    };
    env.stack_used = if r.one_in(2) { r.log(200_000) as u32 } else { 0 };
    env.place = r.next() >> 40;
    env.pid = r.range(1, 4_000_000) as u32;
    env.born = if r.one_in(8) { r.log(400) as u16 } else { 0 };
    env.name = match r.below(6) {
        0 => Some("main".into()),
        1 => Some("worker-7".into()),
        2 => Some("tokio-runtime-worker".into()),
        _ => None,
    };
    env.streams = if r.one_in(3) { r.range(1, 6) as u8 } else { 0 };
    let nt = r.range(1, 4);
    let mut threads = vec![Vec::new(); nt];
    for t in &mut threads {
        for _ in 0..r.range(1, 5) {
            t.push(Op { sym: r.below(syms.len()), flags: g.flags(r), ..Op::default() });
        }
    }
    // a random thread goes first
    let mut sched = in_turn(nt);
    let k = r.below(nt);
    sched.swap(0, k);
    Scenario { kind: "ambient".into(), syms, threads, sched, env, ..Scenario::default() }
}

fn c13(r: &mut Prng, g: &Gen, e: &mut Engine) -> Scenario {
    let (syms, _) = pool(r, g);
    let n = if r.one_in(2) { 1 } else { r.range(2, 3) };
    let mut threads = Vec::new();
    let mut total = 0;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 3) {
            let sym = r.below(syms.len());
            let flags = g.flags(r);
            let steps = e.reference(&syms[sym], flags).steps.max(2);
            total += steps as usize;
            let mut op = Op { sym, flags, ..Op::default() };
            let mut at: Vec<u64> = (0..r.below(4)).map(|_| 1 + r.below(steps as usize) as u64).collect();
            at.sort_unstable();
            for a in at {
                let sym = r.below(syms.len());
                let flags = g.flags(r);
                let steps = e.reference(&syms[sym], flags).steps.max(2);
                let mut inner = Op { sym, flags, ..Op::default() };
                if r.one_in(4) {
                    inner.nest.push((1 + r.below(steps as usize) as u64, Op { sym: r.below(syms.len()), flags: g.flags(r), ..Op::default() }));
                }
                op.nest.push((a, inner));
            }
            if r.one_in(3) {
                let k = r.range(1, 3);
                let list = (0..k).map(|_| Op { sym: r.below(syms.len()), flags: g.flags(r), ..Op::default() }).collect();
                op.fork = Some((1 + r.below(steps as usize) as u64, list));
            }
            ops.push(op);
        }
        threads.push(ops);
    }
    let sched = if n > 1 { draw_sched(r, n, total) } else { Vec::new() };
    Scenario { kind: if n > 1 { "interrupted beside others" } else { "interrupted" }.into(), syms, threads, sched, ..Scenario::default() }
}

/// Calls of every fate: plain ones, hostile, damaged and deep symbols, refusals, failing allocations.
fn c14(r: &mut Prng, g: &Gen) -> Scenario {
    let mut env = draw_env(r);
    env.streams = if r.one_in(2) { r.range(1, 6) as u8 } else { 0 };
    env.hooked = true;
    env.getenv = if r.one_in(3) { Some((*r.pick(&["1", "0", "", "full", "debug", "trace"])).into()) } else { None };
    let syms: Vec<Sym> = (0..r.range(1, 6))
        .map(|_| match r.below(6) {
            0 => {
                let n = 1 + r.log(30) as usize;
                gen::hostile(r, n, false)
            }
            1 => {
                let n = 1 + r.log(4000) as usize;
                gen::mixed_nest(r, n)
            }
            2 => Sym::lit(g.damaged(r, 4)),
            3 => subject(r, g),
            _ => g.any(r),
        })
        .collect();
    let nb = r.below(3);
    let nt = r.range(1, 3);
    let mut threads = vec![Vec::new(); nt];
    for t in &mut threads {
        for _ in 0..r.range(1, 6) {
            let sym = r.below(syms.len());
            let buf = if nb > 0 && r.one_in(2) { Some(r.below(nb)) } else { None };
            let faults = if r.one_in(4) { vec![any_fault(r)] } else { Vec::new() };
            let mut op = Op { sym, flags: g.flags(r), buf, faults, ..Op::default() };
            if op.faults.is_empty() && r.one_in(3) {
                // looked at from within, too
                let mut at: Vec<u64> = (0..r.range(1, 3)).map(|_| r.log(20_000) as u64).collect();
                at.sort_unstable();
                op.nest = at.into_iter().map(|at| (at, Op { sym: r.below(syms.len()), ..Op::default() })).collect();
            }
            t.push(op);
        }
    }
    let sched = in_turn(nt);
    Scenario {
        kind: "effects".into(),
        syms,
        bufs: (0..nb).map(|_| draw_buf(r)).collect(),
        threads,
        sched,
        env,
        ..Scenario::default()
    }
}

// ---------------------------------------------------------------- judging

/// The same was asked before, undisturbed or with the same outcome, so whatever is set up once had
/// its chance.
fn seen_before(ops: &[OpRec], r: &OpRec) -> bool {
    ops.iter().any(|x| {
        (x.sym, x.flags) == (r.sym, r.flags)
            && (x.fired_alloc + x.fired_write + x.fired_node == 0 || (x.tag, x.hash) == (r.tag, r.hash))
    })
}

fn op_of<'a>(sc: &'a Scenario, r: &OpRec) -> &'a Op {
    &sc.threads[r.thread as usize][r.idx as usize]
}

fn call(sc: &Scenario, r: &OpRec) -> String {
    let s = sc.syms[r.sym as usize].text();
    let cut: String = s.chars().take(120).collect();
    format!(
        "call {} of thread {}{}{} ({cut:?}{}, flags {:#x})",
        r.idx,
        r.thread,
        if r.depth > 0 { ", nested" } else { "" },
        if r.forked > 0 { ", in a forked child" } else { "" },
        if cut.len() < s.len() { format!("... {} bytes", s.len()) } else { String::new() },
        r.flags
    )
}

/// How the run as a whole went wrong, if it did. Err: the simulator's own fault.
pub fn bad_end(res: &RunResult) -> Result<Option<Violation>, String> {
    Ok(match &res.end {
        End::Done => None,
        End::Stopped(end::STEPS, m) => v("no progress", m.clone()),
        End::Stopped(end::DEADLOCK, m) => v("deadlock", m.clone()),
        End::Stopped(end::MEMORY, m) => v("memory", m.clone()),
        End::Stopped(end::HEAP, m) => v("heap", m.clone()),
        End::Stopped(end::FORK, m) => v("forked child", m.clone()),
        End::Stopped(_, m) => return Err(m.clone()),
        End::Signal(14) => v("no progress", "nothing had moved for 50 s"),
        End::Signal(9) => return Err("a simulated process was killed from outside".into()),
        End::Signal(n) => v(
            "crash",
            format!("killed by signal {n}{}", if res.panic.is_empty() { String::new() } else { format!(" after: {}", res.panic) }),
        ),
        End::Exit(n) => v("crash", format!("the process exited with status {n}")),
    })
}

fn mismatch(sc: &Scenario, r: &OpRec, o: &Outcome) -> Option<Violation> {
    if !o.failure.is_empty() || o.same(r) {
        return None;
    }
    v(
        if r.tag == tag::UNWOUND { "panic" } else { "different outcome" },
        format!(
            "{} gave {}, alone it gives {}",
            call(sc, r),
            show(r.tag, r.len, &snip(r)),
            show(o.tag, o.len, &o.snip)
        ),
    )
}

/// Some call of the scenario fails on its own: then the run says nothing about this property.
fn hopeless(sc: &Scenario, e: &mut Engine) -> bool {
    fn walk(op: &Op, sc: &Scenario, e: &mut Engine) -> bool {
        !e.reference(&sc.syms[op.sym], op.flags).failure.is_empty()
            || op.nest.iter().any(|(_, x)| walk(x, sc, e))
            || op.fork.iter().any(|(_, l)| l.iter().any(|x| walk(x, sc, e)))
    }
    sc.threads.iter().flatten().any(|op| walk(op, sc, e))
}

pub fn judge(sc: &Scenario, res: &RunResult, e: &mut Engine) -> Result<Option<Violation>, String> {
    let bad = bad_end(res)?;
    let p = sc.prop.as_str();
    match p {
        "C07" | "C08" | "C09" | "C11" => {}
        // a call that touches what it does not own may well do so alone, too
        // (a stack overflow ends in SIGABRT)
        "C06" if matches!(res.end, End::Signal(4 | 7 | 11) | End::Stopped(end::MEMORY, _)) => return Ok(bad),
        _ => {
            if bad.is_some() {
                return Ok(if hopeless(sc, e) { None } else { bad });
            }
        }
    }
    for r in &res.ops {
        if r.done == 1 && r.utf8 == 0 {
            return Ok(v("not UTF-8", format!("{} left a string that is not UTF-8", call(sc, r))));
        }
        if r.kept == 2 {
            return Ok(v("memory", format!("the text of {} changed after it had been returned", call(sc, r))));
        }
    }
    let stalled = |r: &OpRec| r.done == 0 && op_of(sc, r).stall.is_some();
    Ok(match p {
        "C01" | "C02" | "C12" | "C13" | "C14" => {
            for r in &res.ops {
                if p == "C14" && r.effects > 0 && r.tag != tag::UNWOUND {
                    return Ok(v("effect", format!("{} {}", call(sc, r), EFFECTS[r.effect as usize])));
                }
                let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                if r.depth == 0 && r.forked == 0 && !op_of(sc, r).faults.is_empty() {
                    continue;
                }
                let x = mismatch(sc, r, &o);
                if x.is_some() {
                    return Ok(x);
                }
            }
            None
        }
        "C03" => {
            let long = expected_long(sc, e);
            for r in &res.ops {
                let x = if r.into == 1 && r.cap_after < r.cap_before && r.tag != tag::UNWOUND {
                    v("capacity", format!("{} left a string with room for {} bytes that had room for {}", call(sc, r), r.cap_after, r.cap_before))
                } else if r.tag == tag::ERR {
                    if r.into == 1 && r.clean != 1 {
                        v("not empty", format!("{} failed ({}) and left text in the string", call(sc, r), snip(r)))
                    } else if op_of(sc, r).faults.is_empty() {
                        let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                        mismatch(sc, r, &o)
                    } else {
                        None
                    }
                } else if r.tag == tag::OK {
                    ok_text(sc, r, e, &long)
                } else {
                    // a panic of its own is C09's business
                    None
                };
                if x.is_some() {
                    return Ok(x);
                }
            }
            None
        }
        "C04" => {
            let long = expected_long(sc, e);
            for r in &res.ops {
                let faulty = !op_of(sc, r).faults.is_empty();
                let x = if r.tag == tag::OK && r.fired_write + r.fired_node > 0 {
                    v("refusal ignored", format!("{} gave {} although output or an element had been refused", call(sc, r), show(r.tag, r.len, &snip(r))))
                } else if r.tag == tag::OK {
                    ok_text(sc, r, e, &long)
                } else if r.tag == tag::UNWOUND {
                    let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                    if o.tag == tag::UNWOUND {
                        None
                    } else {
                        v("panic", format!("{}: {}", call(sc, r), snip(r)))
                    }
                } else if !faulty || r.fired_write + r.fired_node == 0 {
                    let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                    mismatch(sc, r, &o)
                } else {
                    None
                };
                if x.is_some() {
                    return Ok(x);
                }
            }
            None
        }
        "C05" => {
            for (i, r) in res.ops.iter().enumerate() {
                let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                let x = if !o.failure.is_empty() {
                    None
                } else if r.fired_alloc == 0 || r.tag == tag::OK {
                    mismatch(sc, r, &o)
                } else if r.into == 1 && r.clean == 0 {
                    v("partial output", format!("{} ran out of memory and left partial text in the string", call(sc, r)))
                } else if i >= 2 && r.live > 0 && seen_before(&res.ops[..i], r) {
                    v("leak", format!("{} ran out of memory and left {} blocks allocated", call(sc, r), r.live))
                } else {
                    None
                };
                if x.is_some() {
                    return Ok(x);
                }
            }
            None
        }
        "C06" => {
            for (i, r) in res.ops.iter().enumerate() {
                let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                let faulty = r.fired_write + r.fired_node > 0;
                let again = seen_before(&res.ops[..i], r);
                let x = if i >= 2 && r.live > 0 && again {
                    v("leak", format!("{} left {} blocks allocated", call(sc, r), r.live))
                } else if i >= 2 && r.held > 0 && (again || sc.expect.contains(&u64::from(r.sym))) {
                    v("memory kept", format!("{} kept {} bytes when it had returned", call(sc, r), r.held))
                } else if !faulty {
                    mismatch(sc, r, &o)
                } else {
                    None
                };
                if x.is_some() {
                    return Ok(x);
                }
            }
            None
        }
        "C07" => {
            if bad.is_some() {
                return Ok(bad);
            }
            let long = expected_long(sc, e);
            for r in &res.ops {
                if r.tag == tag::OK && r.len >= CAP {
                    return Ok(v("too long", format!("{} gave a text of {} bytes", call(sc, r), r.len)));
                }
                if r.tag == tag::UNWOUND {
                    return Ok(v("panic", format!("{}: {}", call(sc, r), snip(r))));
                }
                if let (Some(n), tag::OK, "too many types") = (sc.expect.first(), r.tag, sc.kind.as_str()) {
                    return Ok(v("too many types", format!("{} names {n} types and was accepted", call(sc, r))));
                }
                if let (Some(l), 0, tag::OK) = (&long, r.sym, r.tag) {
                    if l.0 != r.hash || l.1 != r.len {
                        return Ok(v("incomplete", format!("{} gave {} bytes, its full text has {}", call(sc, r), r.len, l.1)));
                    }
                }
                if r.sym != 0 || sc.threads.len() > 1 {
                    let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                    let x = mismatch(sc, r, &o);
                    if x.is_some() {
                        return Ok(x);
                    }
                }
            }
            None
        }
        "C08" => {
            if let Some(b) = bad {
                return Ok(if b.class == "crash" { v("stack overflow", b.detail) } else { Some(b) });
            }
            for r in &res.ops {
                if r.tag == tag::UNWOUND {
                    return Ok(v("panic", format!("{}: {}", call(sc, r), snip(r))));
                }
                if sc.expect.first() == Some(&1) && r.tag != tag::OK {
                    return Ok(v("refused", format!("{} nests {} levels and was refused: {}", call(sc, r), sc.expect[1], snip(r))));
                }
            }
            None
        }
        "C09" => {
            if bad.is_some() {
                return Ok(bad);
            }
            for r in &res.ops {
                if r.tag == tag::UNWOUND {
                    return Ok(v("panic", format!("{}: {}", call(sc, r), snip(r))));
                }
            }
            None
        }
        "C10" => {
            let Some(whole) = res.ops.first() else { return Ok(None) };
            if whole.tag != tag::OK {
                return Ok(None);
            }
            let text = sc.syms[0].text();
            for r in &res.ops[1..] {
                let same = r.hash == whole.hash && r.len == whole.len;
                if r.tag == tag::OK && sc.kind.ends_with("required") && sc.syms[r.sym as usize].len() < text.len() {
                    return Ok(v(
                        "accepted",
                        format!("{} gave {:?}, but its end is missing: the whole symbol is {text:?}", call(sc, r), snip(r)),
                    ));
                }
                if r.tag == tag::OK && !same && !lost_option(&text, sc.syms[r.sym as usize].len()) {
                    return Ok(v(
                        "different text",
                        format!("{} gave {:?}; the whole symbol {:?} gives {:?}", call(sc, r), snip(r), sc.syms[0].text(), snip(whole)),
                    ));
                }
            }
            None
        }
        "C11" => {
            if let Some(b) = bad {
                return Ok(match b.class.as_str() {
                    "no progress" | "deadlock" => Some(b),
                    _ if hopeless(sc, e) => None,
                    _ => Some(b),
                });
            }
            for r in &res.ops {
                if stalled(r) {
                    continue;
                }
                let n = sc.syms[r.sym as usize].len() as u64;
                let work = work_limit(n, r.written.max(r.len));
                if r.steps > work {
                    return Ok(v("too much work", format!("{} took {} steps, {} bytes were written on the way", call(sc, r), r.steps, r.written)));
                }
                if sc.kind == "longer" && r.sym == 1 && res.ops[0].sym == 0 {
                    let a = &res.ops[0];
                    let (more, text) = (n - sc.syms[0].len() as u64, r.written.saturating_sub(a.written));
                    let steps = r.steps.saturating_sub(a.steps);
                    if steps > longer_limit(more, text, r.written) {
                        return Ok(v(
                            "too much work",
                            format!("{} took {steps} steps more than without {more} of its bytes, and wrote {text} bytes more", call(sc, r)),
                        ));
                    }
                }
                if sc.kind == "stalled" {
                    let o = e.reference(&sc.syms[r.sym as usize], r.flags);
                    let x = mismatch(sc, r, &o);
                    if x.is_some() {
                        return Ok(x);
                    }
                }
            }
            None
        }
        _ => return Err(format!("unknown property {p}")),
    })
}

/// Some four times what the library has been seen to need, for parsing and for writing.
pub fn work_limit(len: u64, written: u64) -> u64 {
    20_000 + 1000 * len + 200 * written
}

/// What so many more bytes of a name may cost, and so many more bytes of text, while everything
/// else stays the same.
pub fn longer_limit(more: u64, text: u64, written: u64) -> u64 {
    20_000 + 100 * more + 200 * text + 40 * written
}

/// Hashed names with a locator suffix and local guards with a scope number end in something
/// optional: whether cutting the symbol there leaves a proper one of the same form.
fn lost_option(s: &str, at: usize) -> bool {
    if let Some(rest) = s.strip_prefix("??@") {
        return rest.find('@').is_some_and(|i| at > 3 + i);
    }
    let head = &s[..at];
    (s.starts_with("??_B") || s.starts_with("??__J")) && (head.ends_with('5') || head.ends_with("4IA"))
}

/// Hash and length of the full text of syms[0], from that of syms[1], its short form.
fn expected_long(sc: &Scenario, e: &mut Engine) -> Option<(u64, u64)> {
    if sc.kind == "long list" && sc.syms.len() > SHORT.len() {
        let t = list_text(sc, e)?;
        return Some((crate::rt::hash_bytes(t.as_bytes()), t.len() as u64));
    }
    if sc.kind != "1 MiB" && sc.kind != "around 1 MiB" || sc.syms.len() < 2 {
        return None;
    }
    let flags = sc.threads.iter().flatten().next().map_or(0, |op| op.flags);
    let res = e.run(&Engine::solo(&sc.syms[1], flags));
    if res.end != End::Done || res.ops[0].tag != tag::OK {
        return None;
    }
    let (long, short) = (sc.syms[0].text(), sc.syms[1].text());
    let (a, b) = short.split_once(MARK)?;
    let pad = long.strip_prefix(a)?.strip_suffix(b)?;
    if !pad.chars().all(|c| matches!(c, 'z' | '\u{e9}' | '\u{6f22}')) {
        return None;
    }
    let t = e.text().replace(MARK, pad);
    Some((crate::rt::hash_bytes(t.as_bytes()), t.len() as u64))
}

/// A call that reports success must have given the complete text.
fn ok_text(sc: &Scenario, r: &OpRec, e: &mut Engine, long: &Option<(u64, u64)>) -> Option<Violation> {
    if let (Some((h, n)), 0) = (long, r.sym) {
        return if *h == r.hash && *n == r.len {
            None
        } else {
            v("incomplete", format!("{} gave {} bytes, its full text has {n}", call(sc, r), r.len))
        };
    }
    let o = e.reference(&sc.syms[r.sym as usize], r.flags);
    if !o.failure.is_empty() || o.same(r) {
        return None;
    }
    v(
        "incomplete",
        format!("{} gave {}, in full it is {}", call(sc, r), show(r.tag, r.len, &snip(r)), show(o.tag, o.len, &o.snip)),
    )
}
