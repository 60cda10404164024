//! One simulated run, written out: everything that happens in it follows from this value
//! (and from the library's code).  It is what a replay file holds.

use serde::{Deserialize, Serialize};

fn is_default<T: Default + PartialEq>(x: &T) -> bool {
    *x == T::default()
}

/// Set in the length of a turn that is not counted in steps.
pub const EVENTS: u32 = 1 << 31;

/// In a piece of a symbol: a name of as many bytes, another one in each repetition.
pub const NTH: char = '\u{10fffe}';

fn name(mut i: u32) -> String {
    let mut s = String::new();
    for _ in 0..4 {
        s.insert(0, (b'a' + (i % 26) as u8) as char);
        i /= 26;
    }
    s
}

/// A symbol as a sequence of repeated pieces, so hostile ones stay readable.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sym(pub Vec<(String, u32)>);

impl Sym {
    pub fn lit(s: impl Into<String>) -> Self {
        Self(vec![(s.into(), 1)])
    }

    pub fn text(&self) -> String {
        let mut out = String::new();
        for (s, n) in &self.0 {
            let numbered = s.contains(NTH);
            for i in 0..*n {
                if numbered {
                    out.push_str(&s.replace(NTH, &name(i)));
                } else {
                    out.push_str(s);
                }
            }
        }
        out
    }

    pub fn len(&self) -> usize {
        self.0.iter().map(|(s, n)| s.len() * *n as usize).sum()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// the n-th allocation of the call fails (1-based)
    AllocNth(u32),
    /// the n-th and all later ones fail
    AllocFrom(u32),
    /// n consecutive ones fail, starting with the given one
    AllocRun(u32, u32),
    /// allocations of at least that many bytes fail
    AllocAbove(u64),
    /// allocations fail that would make the call hold more than that many bytes
    AllocBudget(u64),
    /// the n-th write to an output buffer is refused (1-based)
    WriteNth(u32),
    /// a write that would make an output buffer as long as this is refused
    WriteCap(u64),
    /// elements are refused once there are that many
    NodeCap(u32),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Op {
    /// index into Scenario::syms
    pub sym: usize,
    #[serde(default, skip_serializing_if = "is_default")]
    pub flags: u16,
    /// demangle_into that buffer; demangle when absent
    #[serde(default, skip_serializing_if = "is_default")]
    pub buf: Option<usize>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub faults: Vec<Fault>,
    /// at this step of the call, run these calls on the same thread
    #[serde(default, skip_serializing_if = "is_default")]
    pub nest: Vec<(u64, Op)>,
    /// at this step of the call, fork, and run these calls in the child
    #[serde(default, skip_serializing_if = "is_default")]
    pub fork: Option<(u64, Vec<Op>)>,
    /// at this step of the call, the thread stops for ever
    #[serde(default, skip_serializing_if = "is_default")]
    pub stall: Option<u64>,
    /// repeat the call that many more times
    #[serde(default, skip_serializing_if = "is_default")]
    pub again: u32,
    /// each time under another name: what stands in for the marker in the symbol, and in its text
    #[serde(default, skip_serializing_if = "is_default")]
    pub vary: bool,
    /// a destructor makes the call, while a panic of the caller's unwinds the thread
    #[serde(default, skip_serializing_if = "is_default")]
    pub dropping: bool,
    /// made while the thread ends, by the destructor of a thread-local: 1 before those of what the
    /// library keeps per thread, 2 after them
    #[serde(default, skip_serializing_if = "is_default")]
    pub leaving: u8,
    /// keep the text and look at it again at the end of the run
    #[serde(default, skip_serializing_if = "is_default")]
    pub keep: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Buf {
    pub content: Sym,
    pub cap: usize,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Env {
    /// what fresh memory holds: 0 zeroes, 1 ones, 2 text, 3 noise
    #[serde(default, skip_serializing_if = "is_default")]
    pub fill: u8,
    /// hand freed memory out again at once, uncleaned
    #[serde(default, skip_serializing_if = "is_default")]
    pub reuse: bool,
    /// decides placement of allocations, noise, random numbers
    #[serde(default, skip_serializing_if = "is_default")]
    pub seed: u64,
    /// scatter allocations over both ends of the arena, at odd alignments
    #[serde(default, skip_serializing_if = "is_default")]
    pub scatter: bool,
    /// simulated clock at the start, in seconds
    #[serde(default, skip_serializing_if = "is_default")]
    pub clock: i64,
    /// at this many clock readings, the clock jumps by so many seconds
    #[serde(default, skip_serializing_if = "is_default")]
    pub jumps: Vec<(u32, i64)>,
    /// value of every environment variable
    #[serde(default, skip_serializing_if = "is_default")]
    pub getenv: Option<String>,
    /// decides where the caller's symbol lies and what follows it in memory; 0: right before
    /// an unmapped page
    #[serde(default, skip_serializing_if = "is_default")]
    pub place: u64,
    /// process id, 0 for the real one
    #[serde(default, skip_serializing_if = "is_default")]
    pub pid: u32,
    /// threads that have come and gone before
    #[serde(default, skip_serializing_if = "is_default")]
    pub born: u16,
    /// the threads have that name
    #[serde(default, skip_serializing_if = "is_default")]
    pub name: Option<String>,
    /// what becomes of what is written to any descriptor: 0 it is taken, 1-5 it is refused or taken
    /// in small portions, 6 the writer waits for ever
    #[serde(default, skip_serializing_if = "is_default")]
    pub streams: u8,
    /// see after each call whether the panic hook is still the same
    #[serde(default, skip_serializing_if = "is_default")]
    pub hooked: bool,
    /// bytes of stack in use before each call
    #[serde(default, skip_serializing_if = "is_default")]
    pub stack_used: u32,
    /// thread stack in KiB, 0 for plenty
    #[serde(default, skip_serializing_if = "is_default")]
    pub stack_kib: u32,
    /// most bytes of heap live at one time, 0 for no limit
    #[serde(default, skip_serializing_if = "is_default")]
    pub heap_limit: u64,
    /// most steps per call, 0 for the default
    #[serde(default, skip_serializing_if = "is_default")]
    pub step_limit: u64,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    /// name of the scenario family, for statistics
    pub kind: String,
    pub syms: Vec<Sym>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub bufs: Vec<Buf>,
    /// the calls each thread makes, in order
    pub threads: Vec<Vec<Op>>,
    /// who runs, and for how many steps, or, with [`EVENTS`], how many atomic operations and calls
    #[serde(default, skip_serializing_if = "is_default")]
    pub sched: Vec<(u16, u32)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub env: Env,
    /// property-specific expectations, see props.rs
    #[serde(default, skip_serializing_if = "is_default")]
    pub expect: Vec<u64>,
}
