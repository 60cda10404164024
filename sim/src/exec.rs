//! Runs a scenario in a forked child and collects what happened.

use crate::{
    rt::{self, end, tag, OpRec, Shared},
    scenario::{Op, Scenario, Sym},
};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// the simulator ended the run: code of rt::end, message
    Stopped(u32, String),
    /// killed by a signal (crash, abort, or the 100 s alarm)
    Signal(i32),
    Exit(i32),
}

#[derive(Clone)]
pub struct RunResult {
    pub end: End,
    pub ops: Vec<OpRec>,
    pub panic: String,
    pub stats: Stats,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub switches: u64,
    pub trace: u64,
    pub steps: u64,
    pub clock_reads: u64,
    pub random_reads: u64,
    pub env_reads: u64,
    pub futex_waits: u64,
    pub nested: u64,
    pub forks: u64,
    pub stalls: u64,
    pub jumps: u64,
    pub blocks: u64,
    pub reused: u64,
    pub peak: u64,
}

pub struct Engine {
    sh: *mut Shared,
    refs: HashMap<(String, u16), Outcome>,
    pub children: u64,
}

/// What a call gave: enough to compare exactly, and to show.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub tag: u8,
    pub hash: u64,
    pub len: u64,
    pub snip: String,
    pub steps: u64,
    pub allocs: u32,
    pub writes: u32,
    pub nodes: u32,
    pub peak: u64,
    pub written: u64,
    /// empty unless the run of the call alone did not even finish
    pub failure: String,
}

impl Outcome {
    pub fn same(&self, r: &OpRec) -> bool {
        self.failure.is_empty() && r.tag == self.tag && r.hash == self.hash && r.len == self.len
    }
}

pub fn snip(r: &OpRec) -> String {
    let n = r.snip.iter().position(|&x| x == 0).unwrap_or(r.snip.len());
    String::from_utf8_lossy(&r.snip[..n]).into_owned()
}

pub fn show(tag: u8, len: u64, snip: &str) -> String {
    match tag {
        tag::OK => format!("the text {snip:?} ({len} bytes)"),
        tag::ERR => format!("the error {snip}"),
        tag::UNWOUND => format!("a panic: {snip}"),
        _ => "nothing".into(),
    }
}

impl Engine {
    pub fn new() -> Self {
        rt::reserve_arena();
        Self { sh: rt::map_shared(), refs: HashMap::new(), children: 0 }
    }

    fn sh(&mut self) -> &mut Shared {
        // SAFETY: no child is running
        unsafe { &mut *self.sh }
    }

    pub fn run(&mut self, sc: &Scenario) -> RunResult {
        self.children += 1;
        let s = self.sh();
        s.end = 0;
        s.msg_len = 0;
        s.panic_len = 0;
        s.n_ops = 0;
        s.text_len = 0;
        for x in [
            &mut s.switches, &mut s.trace, &mut s.steps, &mut s.clock_reads, &mut s.clock_high,
            &mut s.random_reads, &mut s.env_reads, &mut s.futex_waits, &mut s.nested,
            &mut s.forks, &mut s.stalls, &mut s.jumps, &mut s.arena_blocks,
            &mut s.reused_blocks, &mut s.peak,
        ] {
            *x = 0;
        }
        // SAFETY: this process has one thread
        let st = unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if null >= 0 && !std::env::var("SIMDRIVE_STDERR").is_ok() {
                    libc::dup2(null, 2);
                }
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                rt::execute(sc);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            st
        };
        let s = self.sh();
        let e = if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st))
        } else if s.end == end::DONE {
            End::Done
        } else if s.end == end::RUNNING {
            End::Exit(libc::WEXITSTATUS(st))
        } else {
            End::Stopped(s.end, String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned())
        };
        RunResult {
            end: e,
            ops: s.ops[..s.n_ops as usize].to_vec(),
            panic: String::from_utf8_lossy(&s.panic_msg[..s.panic_len as usize]).into_owned(),
            stats: Stats {
                switches: s.switches,
                trace: s.trace,
                steps: s.steps,
                clock_reads: s.clock_reads,
                random_reads: s.random_reads,
                env_reads: s.env_reads,
                futex_waits: s.futex_waits,
                nested: s.nested,
                forks: s.forks,
                stalls: s.stalls,
                jumps: s.jumps,
                blocks: s.arena_blocks,
                reused: s.reused_blocks,
                peak: s.peak,
            },
        }
    }

    /// The text of the first call of the last run.
    pub fn text(&mut self) -> String {
        let s = self.sh();
        String::from_utf8_lossy(&s.text[..s.text_len as usize]).into_owned()
    }

    pub fn solo(sym: &Sym, flags: u16) -> Scenario {
        Scenario {
            prop: "solo".into(),
            kind: "solo".into(),
            syms: vec![sym.clone()],
            threads: vec![vec![Op { sym: 0, flags, ..Op::default() }]],
            ..Scenario::default()
        }
    }

    /// The outcome of the call when made alone in a fresh process.
    pub fn reference(&mut self, sym: &Sym, flags: u16) -> Outcome {
        let key = (sym.text(), flags);
        if let Some(x) = self.refs.get(&key) {
            return x.clone();
        }
        let r = self.run(&Self::solo(sym, flags));
        let o = match r.ops.first() {
            Some(op) if r.end == End::Done && op.done == 1 => Outcome {
                tag: op.tag,
                hash: op.hash,
                len: op.len,
                snip: snip(op),
                steps: op.steps,
                allocs: op.allocs,
                writes: op.writes,
                nodes: op.nodes,
                peak: op.peak,
                written: op.written,
                failure: String::new(),
            },
            _ => Outcome {
                tag: 0,
                hash: 0,
                len: 0,
                snip: String::new(),
                steps: 0,
                allocs: 0,
                writes: 0,
                nodes: 0,
                peak: 0,
                written: 0,
                failure: format!("{:?}", r.end),
            },
        };
        if self.refs.len() > 60_000 {
            self.refs.clear();
        }
        self.refs.insert(key, o.clone());
        o
    }

    pub fn edges(&mut self) -> (usize, usize) {
        let s = self.sh();
        (s.cov.iter().filter(|&&x| x != 0).count(), s.n_guards as usize)
    }

    pub fn cov(&mut self) -> Vec<u8> {
        self.sh().cov.to_vec()
    }
}
