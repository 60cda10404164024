#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs)]

mod exec;
mod gen;
mod grammar;
mod mini;
mod prng;
mod props;
mod rt;
mod scenario;
mod walk;

use exec::{snip, End, Engine, RunResult};
use gen::Gen;
use prng::mix;
use props::{draw, judge, tier, Violation};
use scenario::{Fault, Op, Scenario};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    io::Write as _,
    time::{Duration, Instant},
};

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    /// against which build it failed: see check.py
    #[serde(default)]
    build: String,
    class: String,
    detail: String,
    seed: u64,
    index: u64,
    scenario: Scenario,
    /// calls, outcomes and fired faults of the failing run
    trace: Vec<String>,
}

fn end_text(e: &End) -> String {
    format!("{e:?}")
}

fn log_of(sc: &Scenario, res: &RunResult) -> Vec<String> {
    let mut out = Vec::new();
    for r in res.ops.iter().take(200) {
        out.push(format!(
            "t{} #{}{}{} sym {} flags {:#x} -> {} hash {:016x} len {} steps {} allocs {} writes {} nodes {} refused a{} w{} n{} live {}{}",
            r.thread,
            r.idx,
            if r.depth > 0 { format!(" nested {}", r.depth) } else { String::new() },
            if r.forked > 0 { " forked" } else { "" },
            r.sym,
            r.flags,
            match (r.done, r.tag) {
                (0, _) => "unfinished",
                (_, 1) => "ok",
                (_, 2) => "error",
                _ => "panic",
            },
            r.hash,
            r.len,
            r.steps,
            r.allocs,
            r.writes,
            r.nodes,
            r.fired_alloc,
            r.fired_write,
            r.fired_node,
            r.live,
            if r.tag == 1 { String::new() } else { format!(" {:?}", snip(r)) },
        ));
    }
    out.push(format!(
        "end {} after {} switches (trace {:016x}), {} steps, {} threads",
        end_text(&res.end),
        res.stats.switches,
        res.stats.trace,
        res.stats.steps,
        sc.threads.len()
    ));
    out
}

/// Everything observable of a run, condensed; equal for equal runs.
fn fingerprint(res: &RunResult) -> u64 {
    let mut h = mix(res.stats.trace ^ mix(res.stats.steps));
    for r in &res.ops {
        for x in [
            r.thread.into(), r.idx.into(), r.depth.into(), r.tag.into(), r.hash, r.len, r.steps,
            r.allocs.into(), r.writes.into(), r.nodes.into(), r.live as u64, r.cap_after, r.peak,
        ] {
            h = mix(h ^ x);
        }
    }
    for b in end_text(&res.end).bytes() {
        h = mix(h ^ u64::from(b));
    }
    h
}

fn fault_name(f: &Fault) -> &'static str {
    match f {
        Fault::AllocNth(_) => "n-th allocation fails",
        Fault::AllocFrom(_) => "allocations fail from the n-th",
        Fault::AllocRun(..) => "run of allocations fails",
        Fault::AllocAbove(_) => "large allocations fail",
        Fault::AllocBudget(_) => "memory budget exceeded",
        Fault::WriteNth(_) => "n-th write refused",
        Fault::WriteCap(_) => "write beyond a cap refused",
        Fault::NodeCap(_) => "element refused",
    }
}

#[derive(Default)]
struct Tally {
    runs: u64,
    calls: u64,
    ok: u64,
    err: u64,
    unwound: u64,
    steps: u64,
    max_steps: u64,
    switches: u64,
    peak: u64,
    /// the most work in parts of a thousand of what is allowed, and the symbol
    work: (u64, String),
    faults: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    traces: HashSet<u64>,
    samples: Vec<Value>,
}

impl Tally {
    fn add(&mut self, sc: &Scenario, res: &RunResult) {
        self.runs += 1;
        *self.kinds.entry(sc.kind.clone()).or_default() += 1;
        let s = &res.stats;
        self.steps += s.steps;
        self.switches += s.switches;
        self.peak = self.peak.max(s.peak);
        let mut bump = |k: &str, n: u64| {
            if n > 0 {
                *self.faults.entry(k.to_owned()).or_default() += n;
            }
        };
        let mut fired = 0;
        for r in &res.ops {
            self.calls += 1 + u64::from(r.reps);
            self.max_steps = self.max_steps.max(r.steps);
            if sc.prop == "C11" {
                let sym = &sc.syms[r.sym as usize];
                let part = r.steps * 1000 / props::work_limit(sym.len() as u64, r.written.max(r.len));
                if part > self.work.0 {
                    self.work = (part, sym.text().chars().take(200).collect());
                }
            }
            match r.tag {
                1 => self.ok += 1,
                2 => self.err += 1,
                3 => self.unwound += 1,
                _ => {}
            }
            if r.depth == 0 && r.forked == 0 {
                let op: &Op = &sc.threads[r.thread as usize][r.idx as usize];
                for f in &op.faults {
                    let n = match f {
                        Fault::WriteNth(_) | Fault::WriteCap(_) => r.fired_write,
                        Fault::NodeCap(_) => r.fired_node,
                        _ => r.fired_alloc,
                    };
                    if n > 0 {
                        bump(fault_name(f), 1);
                        fired += 1;
                    }
                }
            }
        }
        bump("preemption inside or between calls", s.switches);
        if sc.env.stack_kib > 0 {
            bump("call on a small stack", res.ops.len() as u64);
        }
        let ops = sc.threads.iter().flatten();
        let dying = ops.map(|o| u64::from(o.dropping) + o.nest.iter().filter(|x| x.1.dropping).count() as u64).sum();
        bump("call while a panic unwinds", dying);
        bump("call while the thread ends", sc.threads.iter().flatten().filter(|o| o.leaving > 0).count() as u64);
        if sc.env.streams > 0 {
            bump("call with standard streams broken", res.ops.len() as u64);
        }
        bump("nested call", s.nested);
        bump("fork", s.forks);
        bump("thread stalled for ever", s.stalls);
        bump("clock reading", s.clock_reads);
        bump("clock jump", s.jumps);
        bump("random numbers read", s.random_reads);
        bump("environment read", s.env_reads);
        bump("lock contended", s.futex_waits);
        if sc.env.fill != 0 {
            bump("blocks handed out dirty", s.blocks);
        }
        if sc.env.scatter {
            bump("blocks placed at odd addresses", s.blocks);
        }
        bump("blocks recycled uncleaned", s.reused);
        let storage = match sc.prop.as_str() {
            "C09" => res.ops.len() as u64,
            "C10" => res.ops.len().saturating_sub(1) as u64,
            _ => 0,
        };
        bump(if sc.prop == "C10" { "symbol cut short" } else { "storage fault on a symbol" }, storage);
        let ok = match sc.prop.as_str() {
            "C01" => s.switches > 0,
            "C02" => res.ops.len() > 1,
            "C03" => res.ops.iter().any(|r| r.into == 1 && r.cap_before > 0),
            "C04" => fired > 0 || sc.kind == "1 MiB",
            "C05" => fired > 0,
            "C06" => s.blocks > 0,
            "C09" | "C10" => storage > 0,
            "C11" => s.stalls > 0 || sc.kind != "stalled",
            "C13" => s.nested + s.forks > 0,
            _ => true,
        };
        if ok {
            let mut h = fingerprint(res);
            if sc.prop == "C08" {
                h = mix(h ^ rt::hash_bytes(sc.syms[0].text().as_bytes()));
            }
            self.distinct.insert(h);
        }
        if s.switches > 0 {
            self.traces.insert(s.trace);
        }
        if self.samples.len() < 2 && self.runs % 97 == 5 {
            let mut x = sc.clone();
            x.sched.truncate(12);
            for t in &mut x.threads {
                t.truncate(4);
            }
            x.syms.truncate(4);
            let v = serde_json::to_value(&x).unwrap_or_default();
            if v.to_string().len() < 4000 {
                let mut log = log_of(sc, res);
                log.truncate(4);
                self.samples.push(json!({ "index": self.runs, "scenario (long lists cut)": v, "log": log }));
            }
        }
    }
}

/// Disables address space randomisation, so that even what depends on addresses repeats.
fn fix_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0004_0000;
    if std::env::var_os("SIMDRIVE_FIXED").is_some() {
        return;
    }
    std::env::set_var("SIMDRIVE_FIXED", "1");
    // SAFETY: plain system calls
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old >= 0 && libc::personality(old as libc::c_ulong | NO_RANDOMIZE) >= 0 {
            use std::os::unix::process::CommandExt as _;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            eprintln!("re-exec failed: {e}");
        }
    }
}

fn main() {
    fix_addresses();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("worker") => worker(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("show") => show(&args[2..]),
        Some("gen") => sample(&args[2..]),
        _ => {
            eprintln!("usage: simdrive worker PROP TIER SEED WORKER WORKERS RUNS SECONDS REPLAYDIR [LOG|- [DIR]] | replay FILE | show PROP SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}

/// Runs every WORKERS-th scenario of the batch. Prints one JSON object.
fn worker(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().expect("seed");
    let w: u64 = a[3].parse().expect("worker");
    let n: u64 = a[4].parse().expect("workers");
    let runs: u64 = match a[5].parse().expect("runs") {
        0 => tier(prop, thorough).runs,
        x => x,
    };
    let limit = Duration::from_secs(a[6].parse().expect("seconds"));
    let dir = &a[7];
    let mut log = a.get(8).filter(|p| *p != "-").map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("log")));
    let start = Instant::now();
    let g = Gen::new();
    let mut e = Engine::new();
    let mut t = Tally::default();
    let mut found: Option<Value> = None;
    let mut error: Option<String> = None;
    let mut index = w;
    // where the workers of a batch tell each other of the earliest violation
    let earliest = a.get(9);
    // to find runs that cost too much
    let slow = std::env::var("SIMDRIVE_SLOW").ok().and_then(|x| x.parse().ok()).map(Duration::from_millis);
    while index < runs && start.elapsed() < limit {
        if earliest.is_some_and(|p| std::fs::read_dir(p).is_ok_and(|d| {
            d.flatten().any(|f| f.file_name().to_str().and_then(|x| x.parse().ok()).is_some_and(|x: u64| x < index))
        })) {
            break;
        }
        let at = Instant::now();
        let sc = draw(prop, seed, index, &g, &mut e);
        let res = e.run(&sc);
        if slow.is_some_and(|x| at.elapsed() > x) {
            eprintln!("run {index} ({}) took {:?}", sc.kind, at.elapsed());
        }
        if let Some(l) = &mut log {
            writeln!(l, "{index} {:016x}", fingerprint(&res)).expect("log");
        }
        t.add(&sc, &res);
        match judge(&sc, &res, &mut e) {
            Err(m) => {
                // once more, in case the machine hiccuped
                let again = e.run(&sc);
                if let Err(m2) = judge(&sc, &again, &mut e) {
                    error = Some(format!("run {index}: {m}; {m2}"));
                    break;
                }
            }
            Ok(None) => {}
            Ok(Some(v)) => {
                if let Some(p) = earliest {
                    let _ = std::fs::write(format!("{p}/{index}"), "");
                }
                found = report(prop, seed, index, &sc, v, &mut e, dir, &mut error);
                break;
            }
        }
        index += n;
    }
    let (seen, guards) = e.edges();
    let cov = e.cov();
    let covhex: String = cov[..(guards + 1).min(cov.len())]
        .chunks(4)
        .map(|c| format!("{:x}", c.iter().enumerate().fold(0_u8, |a, (i, x)| a | (x & 1) << i)))
        .collect();
    let out = json!({
        "worker": w, "runs": t.runs, "children": e.children, "calls": t.calls, "ok": t.ok, "err": t.err,
        "unwound": t.unwound, "steps": t.steps, "max_steps": t.max_steps, "switches": t.switches, "peak": t.peak, "work": t.work,
        "faults": t.faults, "kinds": t.kinds, "samples": t.samples, "edges": seen, "guards": guards,
        "cov": covhex,
        "distinct": t.distinct.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>(),
        "traces": t.traces.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violation": found, "error": error,
    });
    println!("{out}");
    0
}

#[allow(clippy::too_many_arguments)]
fn report(prop: &str, seed: u64, index: u64, sc: &Scenario, v: Violation, e: &mut Engine, dir: &str, error: &mut Option<String>) -> Option<Value> {
    // it has to fail again, the same way
    let again = e.run(sc);
    match judge(sc, &again, e) {
        Ok(Some(x)) if x.class == v.class => {}
        other => {
            *error = Some(format!("run {index} is not repeatable: first {v:?}, then {other:?}"));
            return None;
        }
    }
    let mut m = mini::Mini::new(e, sc.clone(), v, Duration::from_secs(60));
    m.run();
    let (best, last, tries) = (m.best.clone(), m.last.clone(), m.tries);
    let res = e.run(&best);
    let rep = Replay {
        property: prop.into(),
        build: if cfg!(feature = "hooks") { "sim" } else { "plain" }.into(),
        class: last.class.clone(),
        detail: last.detail.clone(),
        seed,
        index,
        trace: log_of(&best, &res),
        scenario: best,
    };
    let path = format!("{dir}/{prop}-seed{seed}-run{index}.json");
    if let Err(x) = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap_or_default()) {
        *error = Some(format!("{path}: {x}"));
    }
    Some(json!({ "class": last.class, "detail": last.detail, "replay": path, "index": index, "minimiser_tries": tries }))
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let rep: Replay = match serde_json::from_str(&text) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let mut e = Engine::new();
    let res = e.run(&rep.scenario);
    for l in log_of(&rep.scenario, &res) {
        eprintln!("{l}");
    }
    match judge(&rep.scenario, &res, &mut e) {
        Ok(Some(v)) => {
            println!("{}: {}", v.class, v.detail);
            if v.class == rep.class {
                println!("VIOLATION property={} replay={path}", rep.property);
                1
            } else {
                println!("(recorded was {}: {})", rep.class, rep.detail);
                2
            }
        }
        Ok(None) => {
            println!("does not fail");
            0
        }
        Err(m) => {
            println!("error: {m}");
            2
        }
    }
}

/// What the grammar gives: one line per symbol, with its outcome.
fn sample(a: &[String]) -> i32 {
    let (seed, n): (u64, u64) = (a[0].parse().expect("seed"), a[1].parse().expect("number"));
    let mut e = Engine::new();
    for i in 0..n {
        let mut r = prng::Prng::new(mix(seed ^ mix(i)));
        let s = grammar::Grammar::new(&mut r).symbol();
        let o = e.reference(&scenario::Sym::lit(s.clone()), 0);
        println!("{} {} {s} {}", o.tag, s.len(), o.snip);
    }
    0
}

fn show(a: &[String]) -> i32 {
    let g = Gen::new();
    let mut e = Engine::new();
    if a[0] == "sym" {
        let sym = scenario::Sym::lit(a[1].clone());
        let o = e.reference(&sym, a.get(2).map_or(0, |x| x.parse().expect("flags")));
        println!("{o:?}");
        return 0;
    }
    let sc = draw(&a[0], a[1].parse().expect("seed"), a[2].parse().expect("index"), &g, &mut e);
    println!("{}", serde_json::to_string(&sc).unwrap_or_default());
    let t = Instant::now();
    let res = e.run(&sc);
    println!("{:?}", t.elapsed());
    for l in log_of(&sc, &res) {
        println!("{l}");
    }
    println!("{:?}", judge(&sc, &res, &mut e));
    0
}
