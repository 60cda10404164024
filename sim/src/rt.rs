//! The simulator proper.  Lives in the forked child that executes one scenario: real
//! threads, of which only the holder of the baton runs; yield points at every basic-block
//! edge, load and store of the library; the allocator; and what the library would reach of
//! the operating system if it tried (futexes, clocks, random numbers, environment, sleep).

use crate::{
    prng::{mix, Prng},
    scenario::{self, Env, Fault, Op, Scenario},
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    panic::{catch_unwind, AssertUnwindSafe},
    ptr,
    sync::atomic::{AtomicU32, Ordering},
};
use undname::Flags;

// ---------------------------------------------------------------- shared with the worker

pub const MAX_OPS: usize = 260_000;
pub const COV: usize = 1 << 16;
pub const TEXT: usize = (1 << 20) + 4096;
pub const MSG: usize = 600;
pub const SNIP: usize = 96;

pub mod end {
    pub const RUNNING: u32 = 0;
    pub const DONE: u32 = 1;
    pub const STEPS: u32 = 2;
    pub const DEADLOCK: u32 = 3;
    pub const MEMORY: u32 = 4;
    pub const HARNESS: u32 = 5;
    pub const HEAP: u32 = 6;
    pub const FORK: u32 = 7;
}

pub const EFFECTS: [&str; 10] = [
    "nothing",
    "wrote to a file, a terminal or a connection",
    "opened a file",
    "changed files or directories",
    "changed the working directory or the environment",
    "changed how signals are handled",
    "started a thread or a process",
    "opened a connection",
    "changed settings of the process",
    "ran or changed the panic hook",
];

pub mod tag {
    pub const OK: u8 = 1;
    pub const ERR: u8 = 2;
    pub const UNWOUND: u8 = 3;
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct OpRec {
    pub thread: u16,
    pub depth: u8,
    pub tag: u8,
    /// index in the thread's program; for nested and forked calls that of the outermost call
    pub idx: u32,
    pub sym: u32,
    pub flags: u16,
    pub forked: u8,
    pub done: u8,
    /// the text (or buffer, after an unwinding) is valid UTF-8
    pub utf8: u8,
    /// after a demangle_into that failed: 1 the buffer was empty, 2 untouched, 0 anything else
    pub clean: u8,
    pub into: u8,
    /// the kept text was still intact at the end of the run (0 not kept, 1 yes, 2 no)
    pub kept: u8,
    /// what the call did to the world outside, an index into EFFECTS, and how often it did
    pub effect: u8,
    pub effects: u32,
    /// that many more calls of the same operation had exactly this outcome
    pub reps: u32,
    /// the panic was not provoked by an injected fault
    pub own_panic: u8,
    pub fired_alloc: u32,
    pub fired_write: u32,
    pub fired_node: u32,
    pub allocs: u32,
    pub writes: u32,
    pub nodes: u32,
    pub live: i32,
    /// the bytes of the call's own blocks that are still there, now and when it had returned
    pub bytes: i64,
    pub held: i64,
    pub written: u64,
    pub hash: u64,
    pub len: u64,
    pub steps: u64,
    pub peak: u64,
    pub cap_before: u64,
    pub cap_after: u64,
    pub snip: [u8; SNIP],
}

#[repr(C)]
pub struct Shared {
    pub end: u32,
    pub msg_len: u32,
    pub msg: [u8; MSG],
    pub panic_len: u32,
    pub panic_msg: [u8; MSG],
    pub n_ops: u32,
    pub n_guards: u32,
    pub switches: u64,
    pub trace: u64,
    pub steps: u64,
    pub clock_reads: u64,
    pub clock_high: u64,
    pub random_reads: u64,
    pub env_reads: u64,
    pub futex_waits: u64,
    pub nested: u64,
    pub forks: u64,
    pub stalls: u64,
    pub jumps: u64,
    pub arena_blocks: u64,
    pub reused_blocks: u64,
    pub peak: u64,
    pub text_len: u64,
    pub text: [u8; TEXT],
    pub cov: [u8; COV],
    pub ops: [OpRec; MAX_OPS],
}

static mut SH: *mut Shared = ptr::null_mut();

pub fn map_shared() -> *mut Shared {
    // SAFETY: plain anonymous mapping
    unsafe {
        let p = libc::mmap(
            ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "shared mapping");
        SH = p.cast();
        SH
    }
}

fn sh() -> &'static mut Shared {
    // SAFETY: set before any scenario runs; only the baton holder uses it
    unsafe { &mut *SH }
}

// ---------------------------------------------------------------- per-thread state

#[thread_local]
static mut ON: bool = false; // yield points are live
#[thread_local]
static mut LIB: bool = false; // inside a library call: simulated allocator and system
#[thread_local]
static mut UNW: bool = false; // a panic is under way: no more faults, plain allocator
#[thread_local]
static mut STEPS: u64 = 0;
#[thread_local]
static mut NEXT: u64 = u64::MAX;
#[thread_local]
static mut QEND: u64 = u64::MAX;
#[thread_local]
static mut TID: usize = 0;
#[thread_local]
static mut CUR: *mut Call = ptr::null_mut();
#[thread_local]
static mut REP: u32 = 0;

struct Call {
    op: *const Op,
    rec: usize,
    start: u64,
    limit: u64,
    nest_at: usize,
    forked: bool,
    stalled: bool,
    live_bytes: i64,
    alloc_faulted: bool,
}

fn bye(code: u32, msg: &str) -> ! {
    // SAFETY: baton holder
    unsafe {
        ON = false;
        LIB = false;
        let s = sh();
        if s.end == end::RUNNING {
            let b = msg.as_bytes();
            let n = b.len().min(MSG);
            s.msg[..n].copy_from_slice(&b[..n]);
            s.msg_len = n as u32;
            s.end = code;
        }
        libc::_exit(i32::from(code != end::DONE));
    }
}

// ---------------------------------------------------------------- yield points

#[inline(always)]
unsafe fn tick() {
    if ON {
        STEPS += 1;
        if STEPS >= NEXT {
            slow();
        }
    }
}

/// What a turn may be counted in instead of steps: atomic operations and ends of calls.
static mut EVENTS: u64 = 0;
static mut EEND: u64 = u64::MAX;

/// Before an atomic operation.
#[inline(never)]
unsafe fn event() {
    if ON {
        STEPS += 1;
        EVENTS += 1;
        if EVENTS >= EEND {
            QEND = STEPS;
            slow();
        } else if STEPS >= NEXT {
            slow();
        }
    }
}

/// A turn of this thread begins.
unsafe fn turn(q: u64) {
    if q & EVENT == 0 {
        QEND = STEPS + q;
        EEND = u64::MAX;
    } else {
        QEND = STEPS + 2_000_000;
        EEND = EVENTS + (q & !EVENT);
    }
}

const EVENT: u64 = 1 << 63;

fn quota(q: u32) -> u64 {
    if q & scenario::EVENTS == 0 {
        u64::from(q.max(1))
    } else {
        EVENT | u64::from((q & !scenario::EVENTS).max(1))
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    tick();
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ON {
        let i = *g as usize;
        if i < COV {
            (*SH).cov[i] = 1;
        }
        tick();
    }
}

static mut GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

/// Copying and comparing count as work, too, and may be interrupted.
#[cfg(feature = "hooks")]
mod bytes {
    use super::{slow, NEXT, ON, STEPS};
    use std::arch::asm;

    #[inline(always)]
    unsafe fn work(n: usize) {
        if ON {
            STEPS += 1 + n as u64 / 16;
            if STEPS >= NEXT {
                slow();
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        work(n);
        asm!("rep movsb", inout("rdi") d => _, inout("rsi") s => _, inout("rcx") n => _, options(nostack, preserves_flags));
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        work(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rdi") d => _, inout("rsi") s => _, inout("rcx") n => _, options(nostack, preserves_flags));
        } else if n > 0 {
            asm!("std", "rep movsb", "cld",
                inout("rdi") d.wrapping_add(n - 1) => _, inout("rsi") s.wrapping_add(n - 1) => _, inout("rcx") n => _,
                options(nostack));
        }
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        work(n);
        asm!("rep stosb", inout("rdi") d => _, in("al") c as u8, inout("rcx") n => _, options(nostack, preserves_flags));
        d
    }

    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        work(n);
        let mut i = 0;
        while i + 8 <= n {
            let x = a.add(i).cast::<u64>().read_unaligned();
            let y = b.add(i).cast::<u64>().read_unaligned();
            if x != y {
                return if x.swap_bytes() < y.swap_bytes() { -1 } else { 1 };
            }
            i += 8;
        }
        while i < n {
            let d = i32::from(*a.add(i)) - i32::from(*b.add(i));
            if d != 0 {
                return d;
            }
            i += 1;
        }
        0
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        compare(a, b, n)
    }

    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        compare(a, b, n)
    }
}

/// Atomic accesses of the library come here, so that something can happen before each of them.
#[cfg(feature = "hooks")]
mod atomics {
    use super::event as tick;
    use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

    macro_rules! atomics {
        ($($a:ident $t:ident $load:ident $store:ident $cas:ident: $($name:ident $op:ident)*;)*) => { $(
            #[no_mangle]
            pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
                tick();
                (*p).load(SeqCst)
            }

            #[no_mangle]
            pub unsafe extern "C" fn $store(p: *const $a, x: $t, _: i32) {
                tick();
                (*p).store(x, SeqCst);
            }

            #[no_mangle]
            pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
                tick();
                match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }

            $(
                #[no_mangle]
                pub unsafe extern "C" fn $name(p: *const $a, x: $t, _: i32) -> $t {
                    tick();
                    (*p).$op(x, SeqCst)
                }
            )*
        )* };
    }

    atomics!(
        AtomicU8 u8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_compare_exchange_val:
            __tsan_atomic8_exchange swap __tsan_atomic8_fetch_add fetch_add __tsan_atomic8_fetch_sub fetch_sub
            __tsan_atomic8_fetch_and fetch_and __tsan_atomic8_fetch_or fetch_or __tsan_atomic8_fetch_xor fetch_xor
            __tsan_atomic8_fetch_nand fetch_nand;
        AtomicU16 u16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_compare_exchange_val:
            __tsan_atomic16_exchange swap __tsan_atomic16_fetch_add fetch_add __tsan_atomic16_fetch_sub fetch_sub
            __tsan_atomic16_fetch_and fetch_and __tsan_atomic16_fetch_or fetch_or __tsan_atomic16_fetch_xor fetch_xor
            __tsan_atomic16_fetch_nand fetch_nand;
        AtomicU32 u32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_compare_exchange_val:
            __tsan_atomic32_exchange swap __tsan_atomic32_fetch_add fetch_add __tsan_atomic32_fetch_sub fetch_sub
            __tsan_atomic32_fetch_and fetch_and __tsan_atomic32_fetch_or fetch_or __tsan_atomic32_fetch_xor fetch_xor
            __tsan_atomic32_fetch_nand fetch_nand;
        AtomicU64 u64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_compare_exchange_val:
            __tsan_atomic64_exchange swap __tsan_atomic64_fetch_add fetch_add __tsan_atomic64_fetch_sub fetch_sub
            __tsan_atomic64_fetch_and fetch_and __tsan_atomic64_fetch_or fetch_or __tsan_atomic64_fetch_xor fetch_xor
            __tsan_atomic64_fetch_nand fetch_nand;
    );

    #[no_mangle]
    pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
        fence(SeqCst);
    }

    #[no_mangle]
    pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

    #[no_mangle]
    pub unsafe extern "C" fn __tsan_func_entry(_: usize) {}

    #[no_mangle]
    pub unsafe extern "C" fn __tsan_func_exit() {}
}

macro_rules! accesses {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(_p: *const u8) {
            tick();
        }
    )* };
}

accesses!(
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4
    __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
    __sanitizer_cov_store8 __sanitizer_cov_store16
);

#[cold]
#[inline(never)]
unsafe fn slow() {
    ON = false;
    LIB = false;
    let call = &mut *CUR;
    let op = &*call.op;
    let at = STEPS - call.start;
    if at >= call.limit + 200 * sh().ops[call.rec].written {
        let m = format!("a call was still running after {at} steps: {}", describe(call.rec));
        bye(end::STEPS, &m);
    }
    if !UNW {
        while call.nest_at < op.nest.len() && at >= op.nest[call.nest_at].0 {
            let i = call.nest_at;
            call.nest_at += 1;
            sh().nested += 1;
            let saved = (CUR, STEPS, NEXT, QEND, EEND);
            QEND = u64::MAX;
            EEND = u64::MAX;
            let (thread, idx, depth, forked) = {
                let r = &sh().ops[call.rec];
                (r.thread, r.idx, r.depth, r.forked)
            };
            run_call(&op.nest[i].1, thread, idx, depth + 1, forked);
            (CUR, STEPS, NEXT, QEND, EEND) = saved;
        }
        if let Some((s, ops)) = &op.fork {
            if at >= *s && !call.forked {
                call.forked = true;
                fork_here(call.rec, ops);
            }
        }
        if let Some(s) = op.stall {
            if at >= s && !call.stalled {
                call.stalled = true;
                sh().stalls += 1;
                sched().th[TID].state = St::Stalled;
                reschedule();
                unreachable!();
            }
        }
    }
    if STEPS >= QEND {
        reschedule();
    }
    set_next();
    LIB = true;
    ON = true;
}

unsafe fn set_next() {
    let call = &*CUR;
    let op = &*call.op;
    let mut n = QEND.min(call.start + call.limit + 200 * sh().ops[call.rec].written);
    if let Some(x) = op.nest.get(call.nest_at) {
        n = n.min(call.start + x.0);
    }
    if let Some((s, _)) = &op.fork {
        if !call.forked {
            n = n.min(call.start + s);
        }
    }
    if let Some(s) = op.stall {
        if !call.stalled {
            n = n.min(call.start + s);
        }
    }
    // while a panic unwinds, nested calls and the like have to wait
    NEXT = if UNW { QEND.min(call.start + call.limit + 200 * sh().ops[call.rec].written) } else { n };
    if NEXT <= STEPS {
        NEXT = STEPS + 1;
    }
}

/// 1 in the child of a fork
static mut CHILD: i32 = 0;

unsafe fn fork_here(rec: usize, ops: &[Op]) {
    sh().forks += 1;
    let (thread, idx) = (sh().ops[rec].thread, sh().ops[rec].idx);
    let pid = libc::fork();
    if pid < 0 {
        bye(end::HARNESS, "fork");
    }
    if pid == 0 {
        // only this thread is left
        CHILD += 1;
        watch();
        for t in &mut sched().th {
            t.state = St::Gone;
        }
        sched().th[TID].state = St::Ready;
        QEND = u64::MAX;
        EEND = u64::MAX;
        for op in ops {
            run_call(op, thread, idx, 0, 1);
        }
        libc::_exit(0);
    }
    let mut st = 0;
    loop {
        let r = libc::waitpid(pid, &mut st, 0);
        if r == pid {
            break;
        }
        if r < 0 && *libc::__errno_location() != libc::EINTR {
            bye(end::HARNESS, "waitpid");
        }
    }
    if sh().end != end::RUNNING {
        libc::_exit(1);
    }
    if st != 0 {
        let m = if libc::WIFSIGNALED(st) {
            format!("the child of a fork was killed by signal {}", libc::WTERMSIG(st))
        } else {
            format!("the child of a fork exited with {}", libc::WEXITSTATUS(st))
        };
        bye(end::FORK, &m);
    }
}

// ---------------------------------------------------------------- scheduler

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Futex { addr: usize, bits: u32, timeout: bool },
    Buf(usize),
    Done,
    Stalled,
    Gone,
}

struct Th {
    state: St,
    word: AtomicU32,
    timed_out: bool,
    handle: Option<std::thread::JoinHandle<()>>,
}

/// What the process's first thread is asked to do: it brings the others to life when they are
/// to run for the first time, and sees them out when they are done.
enum Job {
    Spawn(usize),
    Reap(usize),
}

static mut JOB: Job = Job::Reap(usize::MAX);
static MAIN: AtomicU32 = AtomicU32::new(0);

struct Sched {
    sc: *const Scenario,
    th: Vec<Th>,
    cursor: usize,
    rr: usize,
    bufs: Vec<Option<String>>,
    busy: Vec<bool>,
    kept: Vec<(usize, String, u64)>,
}

static mut S: *mut Sched = ptr::null_mut();

fn sched() -> &'static mut Sched {
    // SAFETY: set before threads start; only the baton holder uses it
    unsafe { &mut *S }
}

unsafe fn real_futex(word: &AtomicU32, op: i32, val: u32) {
    real_syscall(
        libc::SYS_futex,
        word.as_ptr() as i64,
        i64::from(op | libc::FUTEX_PRIVATE_FLAG),
        i64::from(val),
        0,
        0,
        0,
    );
}

unsafe fn wait_baton(tid: usize) {
    let w = &sched().th[tid].word;
    while w.swap(0, Ordering::Acquire) == 0 {
        real_futex(w, libc::FUTEX_WAIT, 0);
    }
}

unsafe fn give_baton(tid: usize) {
    if sched().th[tid].handle.is_none() {
        if TID == usize::MAX {
            spawn(tid);
        } else {
            tell_main(Job::Spawn(tid));
            return;
        }
    }
    let w = &sched().th[tid].word;
    w.store(1, Ordering::Release);
    real_futex(w, libc::FUTEX_WAKE, 1);
}

unsafe fn tell_main(job: Job) {
    JOB = job;
    MAIN.store(1, Ordering::Release);
    real_futex(&MAIN, libc::FUTEX_WAKE, 1);
}

unsafe fn spawn(tid: usize) {
    let sc = &*sched().sc;
    let stack = if sc.env.stack_kib > 0 { sc.env.stack_kib as usize * 1024 } else { 16 << 20 };
    let mut b = std::thread::Builder::new().stack_size(stack);
    if let Some(name) = &sc.env.name {
        b = b.name(name.clone());
    }
    match b.spawn(move || thread_main(tid)) {
        Ok(h) => sched().th[tid].handle = Some(h),
        Err(_) => bye(end::HARNESS, "spawn"),
    }
}

unsafe fn serve() -> ! {
    loop {
        while MAIN.swap(0, Ordering::Acquire) == 0 {
            real_futex(&MAIN, libc::FUTEX_WAIT, 0);
        }
        match JOB {
            Job::Spawn(t) => give_baton(t),
            Job::Reap(t) => {
                // what the library leaves to the end of a thread happens now
                if let Some(h) = sched().th[t].handle.take() {
                    let _ = h.join();
                }
                reschedule();
            }
        }
    }
}

fn runnable(s: &Sched, t: usize) -> bool {
    match s.th[t].state {
        St::Ready => true,
        St::Buf(b) => !s.busy[b],
        _ => false,
    }
}

/// Decides who runs next and for how long.  Returns on this thread when it is its turn again.
unsafe fn reschedule() {
    let s = sched();
    let sc = &*s.sc;
    let me = TID;
    let n = s.th.len();
    let (next, quantum) = loop {
        if let Some(&(t, q)) = sc.sched.get(s.cursor) {
            s.cursor += 1;
            let t = t as usize % n;
            if runnable(s, t) {
                break (t, quota(q));
            }
            continue;
        }
        // schedule used up: round robin with long turns
        let mut found = None;
        for i in 0..n {
            let t = (s.rr + i) % n;
            if runnable(s, t) {
                found = Some(t);
                break;
            }
        }
        if let Some(t) = found {
            s.rr = t + 1;
            let alone = (0..n).filter(|&t| runnable(s, t)).count() == 1;
            break (t, if alone { u64::MAX / 4 } else { 2_000_000 });
        }
        // nobody can run: let the first timed wait expire
        let timed = (0..n).find(|&t| matches!(s.th[t].state, St::Futex { timeout: true, .. }));
        if let Some(t) = timed {
            s.th[t].state = St::Ready;
            s.th[t].timed_out = true;
            continue;
        }
        let stuck: Vec<usize> = (0..n)
            .filter(|&t| matches!(s.th[t].state, St::Futex { .. } | St::Buf(_)))
            .collect();
        if stuck.is_empty() {
            finish();
        }
        let stalled = (0..n).any(|t| s.th[t].state == St::Stalled);
        let m = format!(
            "threads {stuck:?} wait for ever{}: {:?}",
            if stalled { " (for a stalled thread)" } else { "" },
            s.th.iter().map(|t| match t.state {
                St::Futex { .. } => "waiting for a lock",
                St::Buf(_) => "waiting for a buffer",
                St::Done => "done",
                St::Stalled => "stalled",
                St::Gone => "gone",
                St::Ready => "ready",
            }).collect::<Vec<_>>()
        );
        bye(end::DEADLOCK, &m);
    };
    s.th[next].state = St::Ready;
    if next != me {
        let shm = sh();
        shm.switches += 1;
        let pos = if CUR.is_null() { 0 } else { STEPS - (*CUR).start };
        let idx = if CUR.is_null() { 0 } else { (*CUR).rec as u64 };
        shm.trace = mix(shm.trace ^ mix((me as u64) << 48 ^ (next as u64) << 40 ^ idx << 28 ^ pos));
        QUANTUM = quantum;
        give_baton(next);
        if me == usize::MAX {
            return;
        }
        wait_baton(me);
        turn(QUANTUM);
    } else {
        turn(quantum);
    }
}

static mut QUANTUM: u64 = 0;

fn finish() -> ! {
    // SAFETY: baton holder
    unsafe {
        let s = sched();
        let kept = std::mem::take(&mut s.kept);
        for (rec, text, hash) in &kept {
            sh().ops[*rec].kept = if hash_bytes(text.as_bytes()) == *hash { 1 } else { 2 };
        }
        arena_final_check();
    }
    bye(end::DONE, "");
}

// ---------------------------------------------------------------- calls

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0_u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// A copy of the symbol that ends where readable memory ends, and is gone after the call.
struct Input {
    base: *mut u8,
    map: usize,
    ptr: *const u8,
    len: usize,
}

impl Input {
    unsafe fn new(text: &[u8], place: u64) -> Self {
        const PAGE: usize = 4096;
        // at any alignment, in one of 16 pages, before something plausible or noise
        let shift = (place % 64) as usize;
        let extra = (place >> 6) as usize % 16;
        let pages = (text.len() + shift).div_ceil(PAGE).max(1);
        let map = (pages + 2 + extra) * PAGE;
        let base: *mut u8 = libc::mmap(
            ptr::null_mut(),
            map,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
        .cast();
        if base.cast() == libc::MAP_FAILED {
            bye(end::HARNESS, "input mapping");
        }
        let mid = base.add((1 + extra) * PAGE);
        libc::mprotect(mid.cast(), pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        let p = mid.add(pages * PAGE - text.len() - shift);
        // what precedes the symbol looks like one, too
        for i in 0..pages * PAGE - text.len() - shift {
            *mid.add(i) = b'A';
        }
        const TAILS: [&[u8]; 8] = [b"@", b"6", b"A@H?", b"Z", b"@@YAXXZ", b"8", b"_E", b"@Z0"];
        let tail = TAILS[(place >> 10) as usize % TAILS.len()];
        for i in 0..shift {
            *p.add(text.len() + i) = if place >> 13 & 3 == 0 {
                mix(place ^ i as u64) as u8
            } else {
                tail[i % tail.len()]
            };
        }
        ptr::copy_nonoverlapping(text.as_ptr(), p, text.len());
        libc::mprotect(mid.cast(), pages * PAGE, libc::PROT_READ);
        Self { base, map, ptr: p, len: text.len() }
    }

    unsafe fn str(&self) -> &'static str {
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.ptr, self.len))
    }
}

impl Drop for Input {
    fn drop(&mut self) {
        // SAFETY: our own mapping
        unsafe {
            libc::munmap(self.base.cast(), self.map);
        }
    }
}

struct Oom;

fn describe(rec: usize) -> String {
    let r = &sh().ops[rec];
    // SAFETY: set up
    let sc = unsafe { &*sched().sc };
    let s = &sc.syms[r.sym as usize];
    let t = s.text();
    let cut: String = t.chars().take(60).collect();
    format!("thread {} call {} depth {} flags {:#x} symbol ({} bytes) {:?}", r.thread, r.idx, r.depth, r.flags, t.len(), cut)
}

fn set_snip(r: &mut OpRec, s: &str) {
    let mut n = s.len().min(SNIP);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    r.snip[..n].copy_from_slice(&s.as_bytes()[..n]);
    r.snip[n..].fill(0);
}

/// One call of the library, on this thread, now.
unsafe fn run_call(op: &Op, thread: u16, idx: u32, depth: u8, forked: u8) {
    let s = sched();
    let sc = &*s.sc;
    let alias = (op.vary && depth == 0 && forked == 0).then(|| nth_name(REP));
    let varied = alias.as_ref().map(|a| s_text(op.sym).replace(crate::props::MARK, a));
    let text = varied.as_deref().unwrap_or(s_text(op.sym));
    let input = Input::new(text.as_bytes(), sc.env.place);
    let rec = sh().n_ops as usize;
    if rec >= MAX_OPS {
        bye(end::HARNESS, "too many calls");
    }
    sh().n_ops += 1;
    {
        let r = &mut sh().ops[rec];
        *r = std::mem::zeroed();
        r.thread = thread;
        r.idx = idx;
        r.depth = depth;
        r.forked = forked;
        r.sym = op.sym as u32;
        r.flags = op.flags;
        r.into = u8::from(op.buf.is_some());
    }
    // wait for, and take, the caller's string
    let mut target = String::new();
    if let Some(b) = op.buf {
        if s.busy[b] {
            if depth > 0 || forked > 0 {
                bye(end::HARNESS, "a nested call needs a busy buffer");
            }
            let outer = CUR;
            CUR = ptr::null_mut();
            sched().th[TID].state = St::Buf(b);
            while sched().busy[b] {
                sched().th[TID].state = St::Buf(b);
                reschedule();
            }
            CUR = outer;
        }
        sched().busy[b] = true;
        target = sched().bufs[b].take().unwrap_or_default();
    }
    let before = hash_bytes(target.as_bytes());
    sh().ops[rec].cap_before = target.capacity() as u64;
    let default_limit = 200_000 + 60_000 * text.len() as u64;
    let mut call = Call {
        op,
        rec,
        start: STEPS,
        limit: if sc.env.step_limit > 0 { sc.env.step_limit } else { default_limit },
        nest_at: 0,
        forked: false,
        stalled: false,
        live_bytes: 0,
        alloc_faulted: false,
    };
    let outer = CUR;
    let outer_unw = UNW;
    CUR = &mut call;
    UNW = false;
    arena_begin_op();
    set_next();
    let flags = Flags::from_bits_retain(op.flags);
    let name = input.str();
    let into = op.buf.is_some();
    let mut body = || {
        if sc.env.fill > 0 {
            dirty_stack(sc.env.fill, mix(sc.env.seed ^ rec as u64));
        }
        LIB = true;
        ON = true;
        let r = if into {
            undname::demangle_into(name, flags, &mut target).map(|()| String::new())
        } else {
            undname::demangle(name, flags)
        };
        ON = false;
        LIB = false;
        r
    };
    let watched = sc.env.hooked && !op.dropping && !std::thread::panicking();
    let outcome = catch_unwind(AssertUnwindSafe(|| {
        on_stack(sc.env.stack_used as usize, &mut || if op.dropping { while_unwinding(&mut body) } else { body() })
    }));
    ON = false;
    LIB = false;
    UNW = false;
    let steps = STEPS - call.start;
    sh().steps += steps;
    let peak = arena().op_peak;
    drop(input);
    if watched {
        if !same_hook() {
            record(rec, 9);
        }
        // what was printed may still lie in the buffer of the stream
        LIB = true;
        let _ = std::io::Write::flush(&mut std::io::stdout());
        LIB = false;
    }
    if float_mode() != 0x1f80 {
        record(rec, 8);
        set_float_mode(0x1f80);
    }
    {
        let r = &mut sh().ops[rec];
        r.steps = steps;
        r.peak = peak as u64;
        r.cap_after = target.capacity() as u64;
        match &outcome {
            Ok(Ok(t)) => {
                let t = if into { &target } else { t };
                r.tag = tag::OK;
                r.utf8 = u8::from(std::str::from_utf8(t.as_bytes()).is_ok());
                let named = alias.as_ref().map(|a| t.replace(a, crate::props::MARK));
                let t = named.as_ref().unwrap_or(t);
                r.hash = hash_bytes(t.as_bytes());
                r.len = t.len() as u64;
                if r.utf8 == 1 {
                    set_snip(r, t);
                    if rec == 0 {
                        let n = t.len().min(TEXT);
                        sh().text[..n].copy_from_slice(&t.as_bytes()[..n]);
                        sh().text_len = n as u64;
                    }
                }
            }
            Ok(Err(e)) => {
                let d = format!("{e:?}");
                r.tag = tag::ERR;
                r.utf8 = u8::from(std::str::from_utf8(target.as_bytes()).is_ok());
                r.hash = hash_bytes(d.as_bytes());
                r.len = d.len() as u64;
                set_snip(r, &d);
                r.clean = clean(&target, before);
            }
            Err(payload) => {
                r.tag = tag::UNWOUND;
                r.utf8 = u8::from(std::str::from_utf8(target.as_bytes()).is_ok());
                r.clean = clean(&target, before);
                let oom = payload.is::<Oom>();
                let d = if oom { "out of memory".to_owned() } else { panic_text() };
                r.hash = hash_bytes(d.as_bytes());
                r.own_panic = u8::from(!oom && !call.alloc_faulted);
                set_snip(r, &d);
            }
        }
    }
    // keep or drop what came back; the string's memory is the caller's from here on
    match outcome {
        Ok(Ok(t)) if op.keep && !into => {
            let h = sh().ops[rec].hash;
            disown(t.as_ptr(), rec);
            sched().kept.push((rec, t, h));
        }
        x => drop(x),
    }
    if let Some(b) = op.buf {
        disown(target.as_ptr(), rec);
        sched().bufs[b] = Some(target);
        sched().busy[b] = false;
    }
    sh().ops[rec].held = sh().ops[rec].bytes;
    sh().ops[rec].done = 1;
    CUR = outer;
    UNW = outer_unw;
}

/// What a destructor gets that calls f while a panic unwinds through its scope.
fn while_unwinding<R>(f: &mut dyn FnMut() -> R) -> R {
    struct Guard<'a, R>(&'a mut dyn FnMut() -> R, &'a mut Option<std::thread::Result<R>>);
    impl<R> Drop for Guard<'_, R> {
        fn drop(&mut self) {
            *self.1 = Some(catch_unwind(AssertUnwindSafe(|| (self.0)())));
        }
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _guard = Guard(f, &mut out);
        std::panic::resume_unwind(Box::new(()));
    }));
    match out {
        Some(Ok(r)) => r,
        Some(Err(p)) => std::panic::resume_unwind(p),
        None => unreachable!(),
    }
}

fn clean(target: &str, before: u64) -> u8 {
    if target.is_empty() {
        1
    } else if hash_bytes(target.as_bytes()) == before {
        2
    } else {
        0
    }
}

#[inline(never)]
fn on_stack<R>(used: usize, f: &mut dyn FnMut() -> R) -> R {
    if used == 0 {
        f()
    } else if used < 256 {
        let pad = [0_u8; 16];
        std::hint::black_box(&pad);
        let r = on_stack(0, f);
        std::hint::black_box(&pad);
        r
    } else {
        let pad = [0_u8; 256];
        std::hint::black_box(&pad);
        let r = on_stack(used - 256, f);
        std::hint::black_box(&pad);
        r
    }
}

/// What the stack holds where the call is going to use it.
#[inline(never)]
fn dirty_stack(fill: u8, noise: u64) {
    let x = match fill {
        1 => u64::MAX,
        2 => 0x4164_4041_5a40_4131,
        _ if noise % 2 == 0 => 0,
        _ => noise,
    };
    let a = [x; 4096];
    std::hint::black_box(&a);
}

fn s_text(i: usize) -> &'static str {
    // SAFETY: set up before threads start, never changed
    unsafe { &(&*TEXTS)[i] }
}

static mut TEXTS: *const Vec<String> = ptr::null();

/// Destroyed when the thread ends: before what the library keeps per thread, or after it.
struct Leaving;

impl Drop for Leaving {
    fn drop(&mut self) {
        // SAFETY: this is still the thread's turn
        unsafe {
            LIB = false;
            program(true);
            done();
        }
    }
}

unsafe fn thread_main(tid: usize) {
    thread_local!(static LEAVING: Leaving = const { Leaving });
    TID = tid;
    wait_baton(tid);
    turn(QUANTUM);
    let late = (&(*sched().sc).threads)[tid].iter().map(|op| op.leaving).max().unwrap_or(0);
    if late == 2 {
        LEAVING.with(|_| ());
    }
    program(false);
    if late == 1 {
        LEAVING.with(|_| ());
    }
    if late == 0 {
        done();
    }
    LIB = true;
}

unsafe fn program(leaving: bool) {
    let tid = TID;
    let sc = &*sched().sc;
    for (i, op) in sc.threads[tid].iter().enumerate() {
        if (op.leaving > 0) != leaving {
            continue;
        }
        for k in 0..=op.again {
            REP = k;
            run_call(op, tid as u16, i as u32, 0, 0);
            if k > 1 {
                fold();
            }
            EVENTS += 1;
            if STEPS >= QEND || EVENTS >= EEND {
                reschedule();
            }
        }
    }
}

unsafe fn done() {
    let tid = TID;
    sched().th[tid].state = St::Done;
    // the thread ends in earnest; this is still its turn
    tell_main(Job::Reap(tid));
    LIB = true;
}

/// If the last call had the very outcome of the one before, which was another repetition of the
/// same operation, one record is enough for both.
unsafe fn fold() {
    let s = sh();
    let n = s.n_ops as usize;
    if n < 2 {
        return;
    }
    let (a, b) = (s.ops[n - 2], s.ops[n - 1]);
    let same = a.thread == b.thread
        && a.idx == b.idx
        && (a.depth, a.forked, b.depth, b.forked) == (0, 0, 0, 0)
        && (a.tag, a.hash, a.len, a.kept, a.clean, a.utf8) == (b.tag, b.hash, b.len, b.kept, b.clean, b.utf8)
        && a.done == 1
        && b.done == 1;
    if same && (b.live == 0 || n > MAX_OPS / 2) {
        s.ops[n - 2].reps += 1 + b.reps;
        s.ops[n - 2].live = s.ops[n - 2].live.max(b.live);
        s.n_ops -= 1;
    }
}

/// The name the marker stands for the n-th time.
fn nth_name(n: u32) -> String {
    let mut x = mix(0x7a3d ^ u64::from(n));
    (0..crate::props::MARK.len())
        .map(|_| {
            let c = b'a' + (x % 26) as u8;
            x /= 26;
            c as char
        })
        .collect()
}

/// A run that has not moved for so many seconds is stuck in a way the simulator does not see.
pub const ALARM: u32 = 50;

static mut MOVED: u64 = u64::MAX;

extern "C" fn on_alarm(_: i32) {
    // SAFETY: whatever thread this is on, the others stand still
    unsafe {
        let lib = LIB;
        LIB = false;
        if STEPS == MOVED {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::raise(libc::SIGALRM);
        } else {
            MOVED = STEPS;
            libc::alarm(ALARM);
        }
        LIB = lib;
    }
}

unsafe fn watch() {
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_sigaction = on_alarm as *const () as usize;
    a.sa_flags = libc::SA_RESTART | libc::SA_ONSTACK;
    libc::sigaction(libc::SIGALRM, &a, ptr::null_mut());
    MOVED = u64::MAX;
    libc::alarm(ALARM);
}

/// Executes the scenario in this (freshly forked) process; never returns.
pub fn execute(sc: &Scenario) -> ! {
    // SAFETY: single-threaded here; everything is set up before the threads start
    unsafe {
        watch();
        sh().n_guards = GUARDS;
        install_once();
        set_env(&sc.env);
        if sc.env.hooked {
            let _ = std::io::stdout();
        }
        let texts: Vec<String> = sc.syms.iter().map(|s| s.text()).collect();
        TEXTS = Box::leak(Box::new(texts));
        arena_init(&sc.env);
        let n = sc.threads.len();
        S = Box::leak(Box::new(Sched {
            sc,
            th: (0..n)
                .map(|_| Th { state: St::Ready, word: AtomicU32::new(0), timed_out: false, handle: None })
                .collect(),
            cursor: 0,
            rr: 0,
            bufs: Vec::new(),
            busy: vec![false; sc.bufs.len()],
            kept: Vec::new(),
        }));
        for b in &sc.bufs {
            let content = b.content.text();
            LIB = true;
            let mut s = String::with_capacity(b.cap.max(content.len()));
            LIB = false;
            s.push_str(&content);
            sched().bufs.push(Some(s));
        }
        for _ in 0..sc.env.born {
            let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).map(|h| h.join());
        }
        // the first entry of the schedule starts; TID of this thread matches nobody
        TID = usize::MAX;
        CUR = ptr::null_mut();
        start_first();
        serve()
    }
}

unsafe fn start_first() {
    let s = sched();
    let sc = &*s.sc;
    let n = s.th.len();
    let (t, q) = match sc.sched.first() {
        Some(&(t, q)) => {
            s.cursor = 1;
            (t as usize % n, quota(q))
        }
        None => (0, if n == 1 { u64::MAX / 4 } else { 2_000_000 }),
    };
    QUANTUM = q;
    give_baton(t);
}

// ---------------------------------------------------------------- panics

fn panic_text() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.panic_msg[..s.panic_len as usize]).into_owned()
}

/// Where the panic hook is that was installed.
static mut HOOK: usize = 0;

unsafe fn same_hook() -> bool {
    let h = std::panic::take_hook();
    let same = ptr::from_ref(&*h).cast::<u8>() as usize == HOOK;
    std::panic::set_hook(h);
    same
}

/// Control bits of the floating-point unit.
unsafe fn float_mode() -> u32 {
    let mut x = 0_u32;
    std::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack));
    x & !0x3f
}

unsafe fn set_float_mode(x: u32) {
    std::arch::asm!("ldmxcsr [{}]", in(reg) &x, options(nostack));
}

unsafe fn record(rec: usize, kind: u8) {
    let r = &mut sh().ops[rec];
    r.effects += 1;
    if r.effect == 0 {
        r.effect = kind;
    }
}

fn install_once() {
    let own = 1_u64;
    let hook: Box<dyn Fn(&std::panic::PanicHookInfo<'_>) + Send + Sync> = Box::new(move |info| {
        std::hint::black_box(&own);
        // SAFETY: thread-local flags
        unsafe {
            if LIB && !CUR.is_null() {
                record((*CUR).rec, 9);
            }
            let on = ON;
            let lib = LIB;
            ON = false;
            LIB = false;
            UNW = true;
            let text = format!("{info}");
            let s = sh();
            let n = text.len().min(MSG);
            s.panic_msg[..n].copy_from_slice(&text.as_bytes()[..n]);
            s.panic_len = n as u32;
            if CUR.is_null() {
                bye(end::HARNESS, &text);
            }
            set_next();
            LIB = lib;
            ON = on;
        }
    });
    // SAFETY: before threads start
    unsafe {
        HOOK = ptr::from_ref(&*hook).cast::<u8>() as usize;
    }
    std::panic::set_hook(hook);
    std::alloc::set_alloc_error_hook(|_| {
        // SAFETY: thread-local flags
        unsafe {
            let on = ON;
            ON = false;
            UNW = true;
            if CUR.is_null() {
                bye(end::HARNESS, "real out of memory");
            }
            set_next();
            let b = Box::new(Oom);
            ON = on;
            std::panic::resume_unwind(b);
        }
    });
    #[cfg(feature = "hooks")]
    undname::sim::install(undname::sim::Hooks { refuse_write, refuse_node });
}

#[cfg(feature = "hooks")]
fn refuse_write(len: usize, incoming: usize) -> bool {
    // SAFETY: called by the library, inside a call
    unsafe {
        if !LIB || CUR.is_null() {
            return false;
        }
        let on = ON;
        ON = false;
        let call = &*CUR;
        let r = &mut sh().ops[call.rec];
        r.writes += 1;
        r.written += incoming as u64;
        let mut no = false;
        if !UNW {
            for f in &(*call.op).faults {
                no |= match f {
                    Fault::WriteNth(n) => r.writes == *n,
                    Fault::WriteCap(n) => (len + incoming) as u64 >= *n,
                    _ => false,
                };
            }
        }
        if no {
            r.fired_write += 1;
        }
        ON = on;
        no
    }
}

#[cfg(feature = "hooks")]
fn refuse_node(len: usize) -> bool {
    // SAFETY: called by the library, inside a call
    unsafe {
        if !LIB || CUR.is_null() {
            return false;
        }
        let on = ON;
        ON = false;
        let call = &*CUR;
        let r = &mut sh().ops[call.rec];
        r.nodes += 1;
        let mut no = false;
        if !UNW {
            for f in &(*call.op).faults {
                no |= matches!(f, Fault::NodeCap(n) if len >= *n as usize);
            }
        }
        if no {
            r.fired_node += 1;
        }
        ON = on;
        no
    }
}

// ---------------------------------------------------------------- allocator

const BASE: usize = 0x1000_0000_0000;
const SIZE: usize = 12 << 30;
const MAX_ENTS: usize = 8 << 20;
const MAGIC: u64 = 0x51ab_a110_c8ed_0001;
const POISON: u8 = 0xDB;
const TAIL: usize = 32;
const CALLER: u32 = u32::MAX;

#[derive(Clone, Copy)]
#[repr(C)]
struct Ent {
    addr: usize,
    size: usize,
    room: usize,
    align: u32,
    owner: u32,
    live: u32,
    next: u32,
}

struct Arena {
    bot: usize,
    top: usize,
    ents: *mut Ent,
    n: usize,
    live: usize,
    peak: usize,
    op_peak: usize,
    limit: usize,
    rng: u64,
    fill: u8,
    reuse: bool,
    scatter: bool,
    free: [u32; 48],
}

static mut ARENA: Arena = Arena {
    bot: 0,
    top: 0,
    ents: ptr::null_mut(),
    n: 0,
    live: 0,
    peak: 0,
    op_peak: 0,
    limit: usize::MAX,
    rng: 0,
    fill: 0,
    reuse: false,
    scatter: false,
    free: [u32::MAX; 48],
};

fn arena() -> &'static mut Arena {
    // SAFETY: only the baton holder uses it
    unsafe { &mut *ptr::addr_of_mut!(ARENA) }
}

/// Reserves the address range; done once by the worker, pages are private to each child.
pub fn reserve_arena() {
    // SAFETY: plain anonymous mappings
    unsafe {
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            flags | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p as usize == BASE, "arena mapping");
        let t = libc::mmap(
            ptr::null_mut(),
            MAX_ENTS * std::mem::size_of::<Ent>(),
            libc::PROT_READ | libc::PROT_WRITE,
            flags,
            -1,
            0,
        );
        assert!(t != libc::MAP_FAILED, "table mapping");
        arena().ents = t.cast();
    }
}

fn arena_init(env: &Env) {
    let a = arena();
    let mut r = Prng::new(env.seed ^ 0xa110c);
    a.bot = BASE + 4096 + if env.scatter { r.below(1 << 20) * 16 } else { 0 };
    a.top = BASE + SIZE - 4096;
    a.n = 0;
    a.rng = r.next();
    a.fill = env.fill;
    a.reuse = env.reuse;
    a.scatter = env.scatter;
    a.limit = if env.heap_limit > 0 { env.heap_limit as usize } else { 2 << 30 };
    a.free = [u32::MAX; 48];
}

fn arena_begin_op() {
    let a = arena();
    a.op_peak = a.live;
}

impl Arena {
    fn rnd(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.rng)
    }

    unsafe fn fill_fresh(&mut self, p: *mut u8, n: usize) {
        match self.fill {
            0 => ptr::write_bytes(p, 0, n),
            1 => ptr::write_bytes(p, 0xff, n),
            2 => ptr::write_bytes(p, b'A' + (self.rnd() % 26) as u8, n),
            _ => {
                let mut x = self.rnd();
                for i in 0..n {
                    if i % 64 == 0 {
                        x = mix(x);
                    }
                    *p.add(i) = (x >> (i % 8 * 8)) as u8;
                }
            }
        }
    }

    unsafe fn alloc(&mut self, size: usize, align: usize, owner: u32) -> *mut u8 {
        let class = 64 - (size.max(16) - 1).leading_zeros() as usize;
        if self.reuse && align <= 16 && class < 48 && self.free[class] != u32::MAX
            && (*self.ents.add(self.free[class] as usize)).addr % align == 0
        {
            let i = self.free[class];
            let e = &mut *self.ents.add(i as usize);
            self.free[class] = e.next;
            e.size = size;
            e.align = align as u32;
            e.owner = owner;
            e.live = 1;
            let p = e.addr as *mut u8;
            ptr::write_bytes(p.add(size), 0xA7, TAIL.min(e.room + TAIL - size));
            sh().reused_blocks += 1;
            self.account(size, owner);
            return p;
        }
        let room = if self.reuse { 1_usize << class } else { size };
        if self.n >= MAX_ENTS || self.top - self.bot < room + (1 << 16) + align {
            bye(end::HEAP, "the call took more than 12 GiB of heap");
        }
        let up = |x: usize, a: usize| (x + a - 1) & !(a - 1);
        let low = !self.scatter || self.rnd() & 1 == 0;
        let jitter = if self.scatter && align < 16 {
            (self.rnd() as usize % (16 / align)) * align
        } else {
            0
        };
        let addr = if low {
            let x = up(self.bot + 32, align.max(16)) + jitter;
            self.bot = x + room + TAIL;
            x
        } else {
            let x = ((self.top - room - TAIL) & !(align.max(16) - 1)) - 16.max(align) + jitter;
            self.top = x - 32;
            x
        };
        let p = addr as *mut u8;
        ptr::write_unaligned((addr - 16) as *mut u64, MAGIC);
        ptr::write_unaligned((addr - 8) as *mut u64, self.n as u64);
        self.fill_fresh(p, size);
        ptr::write_bytes(p.add(size), 0xA7, TAIL);
        *self.ents.add(self.n) = Ent {
            addr,
            size,
            room,
            align: align as u32,
            owner,
            live: 1,
            next: u32::MAX,
        };
        self.n += 1;
        self.account(size, owner);
        p
    }

    fn account(&mut self, size: usize, owner: u32) {
        sh().arena_blocks += 1;
        self.live += size;
        if self.live > self.peak {
            self.peak = self.live;
            sh().peak = self.peak as u64;
        }
        self.op_peak = self.op_peak.max(self.live);
        if owner != CALLER {
            sh().ops[owner as usize].live += 1;
            sh().ops[owner as usize].bytes += size as i64;
        }
        if self.live > self.limit {
            let m = format!("calls hold {} bytes of heap", self.live);
            bye(end::HEAP, &m);
        }
    }

    unsafe fn find(&self, p: *const u8, what: &str) -> &'static mut Ent {
        let addr = p as usize;
        let magic = ptr::read_unaligned((addr - 16) as *const u64);
        let i = ptr::read_unaligned((addr - 8) as *const u64) as usize;
        if magic != MAGIC || i >= self.n || (*self.ents.add(i)).addr != addr {
            bye(end::MEMORY, &format!("{what} of a pointer the allocator did not hand out, or memory before a block was overwritten"));
        }
        &mut *self.ents.add(i)
    }

    unsafe fn check_tail(&self, e: &Ent) {
        let t = (e.addr + e.size) as *const u8;
        for i in 0..TAIL {
            if *t.add(i) != 0xA7 {
                bye(end::MEMORY, &format!("memory behind a block of {} bytes was overwritten", e.size));
            }
        }
    }

    unsafe fn free(&mut self, p: *mut u8, size: usize, align: usize) {
        let e = self.find(p, "free");
        if e.live == 0 {
            bye(end::MEMORY, "a block was freed twice");
        }
        if e.size != size || e.align as usize != align {
            bye(end::MEMORY, &format!("a block of {} bytes was freed as one of {size}", e.size));
        }
        self.check_tail(e);
        e.live = 0;
        self.live -= size;
        if e.owner != CALLER {
            sh().ops[e.owner as usize].live -= 1;
            sh().ops[e.owner as usize].bytes -= size as i64;
        }
        if self.reuse {
            let class = 64 - (e.room.max(16) - 1).leading_zeros() as usize;
            if align <= 16 && class < 48 {
                let i = ((e as *const Ent as usize - self.ents as usize) / std::mem::size_of::<Ent>()) as u32;
                e.next = self.free[class];
                self.free[class] = i;
            }
        } else if size >= 1 << 18 {
            let lo = (p as usize + 4095) & !4095;
            let hi = (p as usize + size) & !4095;
            if hi > lo {
                libc::madvise(lo as *mut _, hi - lo, libc::MADV_DONTNEED);
            }
        } else {
            ptr::write_bytes(p, POISON, size);
        }
    }
}

/// The block at p (if it is one of the call's) belongs to the caller now.
unsafe fn disown(p: *const u8, rec: usize) {
    if in_arena(p) {
        let e = arena().find(p, "return");
        if e.owner == rec as u32 {
            e.owner = CALLER;
            sh().ops[rec].live -= 1;
            sh().ops[rec].bytes -= e.size as i64;
        }
    }
}

unsafe fn arena_final_check() {
    let a = arena();
    for i in 0..a.n {
        let e = &*a.ents.add(i);
        if ptr::read_unaligned((e.addr - 16) as *const u64) != MAGIC {
            bye(end::MEMORY, "memory before a block was overwritten");
        }
        if e.live == 1 {
            a.check_tail(e);
        } else if !a.reuse && e.size < 1 << 18 {
            let p = e.addr as *const u8;
            for j in 0..e.size {
                if *p.add(j) != POISON {
                    bye(end::MEMORY, &format!("a block of {} bytes was written to after it had been freed", e.size));
                }
            }
            a.check_tail(e);
        }
    }
}

fn in_arena(p: *const u8) -> bool {
    (BASE..BASE + SIZE).contains(&(p as usize))
}

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

unsafe fn refuse_alloc(size: usize) -> bool {
    if CUR.is_null() {
        return false;
    }
    if std::thread::panicking() {
        // building the message of a panic that is already under way
        return false;
    }
    let call = &mut *CUR;
    let r = &mut sh().ops[call.rec];
    r.allocs += 1;
    let n = r.allocs;
    let mut no = false;
    for f in &(*call.op).faults {
        no |= match f {
            Fault::AllocNth(k) => n == *k,
            Fault::AllocFrom(k) => n >= *k,
            Fault::AllocRun(k, m) => n >= *k && n < k + m,
            Fault::AllocAbove(b) => size as u64 >= *b,
            Fault::AllocBudget(b) => call.live_bytes + size as i64 > *b as i64,
            _ => false,
        };
    }
    if no {
        r.fired_alloc += 1;
        call.alloc_faulted = true;
    } else {
        call.live_bytes += size as i64;
    }
    no
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !LIB || UNW {
            return System.alloc(l);
        }
        let on = ON;
        ON = false;
        let p = if refuse_alloc(l.size()) {
            ptr::null_mut()
        } else {
            let owner = if CUR.is_null() { CALLER } else { (*CUR).rec as u32 };
            arena().alloc(l.size(), l.align(), owner)
        };
        ON = on;
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !LIB || UNW {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !in_arena(p) {
            return System.dealloc(p, l);
        }
        let on = ON;
        ON = false;
        arena().free(p, l.size(), l.align());
        if LIB && !CUR.is_null() {
            (*CUR).live_bytes -= l.size() as i64;
        }
        ON = on;
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_arena(p) && (!LIB || UNW) {
            return System.realloc(p, l, new);
        }
        // always moves
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- operating system

#[inline(always)]
unsafe fn real_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    r
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Stands in for libc's syscall(2), which is how std waits for and wakes futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !LIB {
        return ret(real_syscall(n, a, b, c, d, e, f));
    }
    let (on, lib) = (ON, LIB);
    ON = false;
    LIB = false;
    let r = match n {
        libc::SYS_futex => sim_futex(a as usize, b as i32, c as u32, d, f as u32),
        libc::SYS_getrandom => sim_random(a as *mut u8, b as usize) as i64,
        _ => ret(real_syscall(n, a, b, c, d, e, f)),
    };
    ON = on;
    LIB = lib;
    r
}

unsafe fn sim_futex(addr: usize, op: i32, val: u32, timeout: i64, bits: u32) -> i64 {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let s = sched();
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            sh().futex_waits += 1;
            if ptr::read_volatile(addr as *const u32) != val {
                return ret(-i64::from(libc::EAGAIN));
            }
            let bits = if cmd == libc::FUTEX_WAIT { u32::MAX } else { bits };
            s.th[TID].timed_out = false;
            s.th[TID].state = St::Futex { addr, bits, timeout: timeout != 0 };
            reschedule();
            if s.th[TID].timed_out {
                return ret(-i64::from(libc::ETIMEDOUT));
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let want = if cmd == libc::FUTEX_WAKE { u32::MAX } else { bits };
            let mut woken = 0;
            for t in &mut s.th {
                if woken >= val as i32 {
                    break;
                }
                if let St::Futex { addr: x, bits, .. } = t.state {
                    if x == addr && bits & want != 0 {
                        t.state = St::Ready;
                        woken += 1;
                    }
                }
            }
            i64::from(woken)
        }
        _ => bye(end::HARNESS, "unexpected futex operation"),
    }
}

unsafe fn sim_random(p: *mut u8, n: usize) -> isize {
    let s = sh();
    for i in 0..n {
        if i % 8 == 0 {
            s.random_reads += 1;
        }
        let x = mix((*sched().sc).env.seed ^ mix(s.random_reads));
        *p.add(i) = (x >> (i % 8 * 8)) as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if !LIB {
        return ret(real_syscall(libc::SYS_getrandom, p as i64, n as i64, i64::from(flags), 0, 0, 0)) as isize;
    }
    let on = ON;
    ON = false;
    let r = sim_random(p, n);
    ON = on;
    r
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if !LIB {
        return ret(real_syscall(libc::SYS_clock_gettime, i64::from(id), ts as i64, 0, 0, 0, 0)) as i32;
    }
    let on = ON;
    ON = false;
    let s = sh();
    let env = &(*sched().sc).env;
    s.clock_reads += 1;
    let mut secs = env.clock;
    for (at, by) in &env.jumps {
        if s.clock_reads >= u64::from(*at) {
            // only the wall clock goes backwards
            if id == libc::CLOCK_REALTIME || *by > 0 {
                secs += by;
            }
            if s.clock_reads == u64::from(*at) {
                s.jumps += 1;
            }
        }
    }
    let mut now = s.steps;
    if !CUR.is_null() {
        now += STEPS - (*CUR).start;
    }
    s.clock_high = s.clock_high.max(now);
    let now = s.clock_high;
    (*ts).tv_sec = secs + (now / 1_000_000_000) as i64;
    (*ts).tv_nsec = (now % 1_000_000_000) as i64;
    ON = on;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *mut i8 {
    extern "C" {
        static environ: *const *const i8;
    }
    if LIB {
        sh().env_reads += 1;
        if ENVSTR.is_null() {
            return ptr::null_mut();
        }
        return ENVSTR as *mut i8;
    }
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && e.starts_with(want) {
            return (*p).add(want.len() + 1) as *mut i8;
        }
        p = p.add(1);
    }
    ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if LIB && !S.is_null() {
        let env = &(*sched().sc).env;
        return if env.pid != 0 { env.pid as i32 } else { 4242 } + CHILD;
    }
    real_syscall(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}

static mut ENVSTR: *const i8 = ptr::null();

fn set_env(env: &Env) {
    // SAFETY: before threads start
    unsafe {
        ENVSTR = match &env.getenv {
            Some(s) => std::ffi::CString::new(s.as_str()).unwrap_or_default().into_raw(),
            None => ptr::null(),
        };
        if let Some(s) = &env.getenv {
            extern "C" {
                static mut environ: *const *const i8;
            }
            let e = std::ffi::CString::new(format!("UNDNAME={s}")).unwrap_or_default().into_raw();
            environ = Box::leak(Box::new([e.cast_const(), ptr::null()])).as_ptr();
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if LIB {
        let on = ON;
        ON = false;
        LIB = false;
        reschedule();
        set_next();
        LIB = true;
        ON = on;
        return 0;
    }
    ret(real_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

/// Sleeping takes no time: the simulated clock moves on.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if LIB {
        let on = ON;
        ON = false;
        LIB = false;
        if flags == 0 {
            sh().steps += (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        }
        reschedule();
        set_next();
        LIB = true;
        ON = on;
        return 0;
    }
    -real_syscall(libc::SYS_clock_nanosleep, i64::from(id), i64::from(flags), t as i64, rem as i64, 0, 0) as i32
}

/// What else the library might ask of the machine: a file, a terminal, a directory, the number of
/// processors. The drawn answer is yes or no, to all of it.
unsafe fn asked() -> bool {
    sh().env_reads += 1;
    mix((*sched().sc).env.seed ^ 0xa5ed) & 1 == 0
}

unsafe fn no(errno: i32) -> i32 {
    *libc::__errno_location() = errno;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    let mut path = path;
    if LIB {
        effect(2);
        if !asked() {
            return no(libc::ENOENT);
        }
        path = c"/dev/zero".as_ptr();
    }
    ret(real_syscall(libc::SYS_openat, i64::from(libc::AT_FDCWD), path as i64, i64::from(flags), i64::from(mode), 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, out: *mut libc::statx) -> i32 {
    if LIB {
        if !asked() {
            return no(libc::ENOENT);
        }
        return ret(real_syscall(libc::SYS_statx, i64::from(libc::AT_FDCWD), c"/".as_ptr() as i64, 0, i64::from(mask), out as i64, 0)) as i32;
    }
    ret(real_syscall(libc::SYS_statx, i64::from(dir), path as i64, i64::from(flags), i64::from(mask), out as i64, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut i8, n: usize) -> *mut i8 {
    if LIB {
        let dir = if asked() { c"/" } else { c"/srv" };
        if n < 5 {
            no(libc::ERANGE);
            return ptr::null_mut();
        }
        ptr::copy_nonoverlapping(dir.as_ptr(), buf, dir.to_bytes_with_nul().len());
        return buf;
    }
    let r = ret(real_syscall(libc::SYS_getcwd, buf as i64, n as i64, 0, 0, 0, 0));
    if r < 0 { ptr::null_mut() } else { buf }
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if LIB {
        if asked() {
            return 1;
        }
        no(libc::ENOTTY);
        return 0;
    }
    let mut t = std::mem::zeroed::<libc::termios>();
    i32::from(real_syscall(libc::SYS_ioctl, i64::from(fd), libc::TCGETS as i64, ptr::addr_of_mut!(t) as i64, 0, 0, 0) == 0)
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut libc::cpu_set_t) -> i32 {
    if LIB {
        ptr::write_bytes(set.cast::<u8>(), 0, n);
        *set.cast::<u8>() = if asked() { 1 } else { 0xff };
        return 0;
    }
    let r = ret(real_syscall(libc::SYS_sched_getaffinity, i64::from(pid), n as i64, set as i64, 0, 0, 0));
    if r < 0 { -1 } else { 0 }
}

/// The call did something to the world outside. Whether that works is drawn.
unsafe fn effect(kind: u8) -> bool {
    if !CUR.is_null() && !UNW {
        record((*CUR).rec, kind);
    }
    mix((*sched().sc).env.seed ^ 0xeffec7) & 1 == 0
}

/// What is written gets nowhere; the state of the streams is drawn.
unsafe fn written(n: usize) -> isize {
    if LIB && n > 0 {
        let on = ON;
        ON = false;
        effect(1);
        let r = match (*sched().sc).env.streams {
            0 => n as isize,
            // closed
            1 => no(libc::EBADF) as isize,
            2 => no(libc::EPIPE) as isize,
            3 => no(libc::ENOSPC) as isize,
            // in small portions
            4 => 1,
            5 => no(libc::EAGAIN) as isize,
            // a pipe nobody reads from any more
            _ => {
                LIB = false;
                sh().futex_waits += 1;
                sched().th[TID].state = St::Futex { addr: 0, bits: 0, timeout: false };
                reschedule();
                LIB = true;
                n as isize
            }
        };
        ON = on;
        return r;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if LIB {
        return written(n);
    }
    ret(real_syscall(libc::SYS_write, i64::from(fd), p as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if LIB {
        return written((0..n as usize).map(|i| (*v.add(i)).iov_len).sum());
    }
    ret(real_syscall(libc::SYS_writev, i64::from(fd), v as i64, i64::from(n), 0, 0, 0)) as isize
}

unsafe fn real(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        bye(end::HARNESS, "dlsym");
    }
    p
}

/// Stand-ins for calls that return 0 or fail with -1 (or, where it says so, with the error's number).
macro_rules! effects {
    ($($kind:literal $fail:literal: $($name:ident)*;)*) => { $($(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            if LIB {
                let on = ON;
                ON = false;
                let works = effect($kind);
                ON = on;
                if works && $kind != 6 {
                    return 0;
                }
                if $fail {
                    return i64::from(libc::EAGAIN);
                }
                return i64::from(no(libc::EAGAIN));
            }
            static mut REAL: *mut libc::c_void = ptr::null_mut();
            if REAL.is_null() {
                REAL = real(const {
                    match std::ffi::CStr::from_bytes_with_nul(concat!(stringify!($name), "\0").as_bytes()) {
                        Ok(x) => x,
                        Err(_) => panic!(),
                    }
                });
            }
            let f6: extern "C" fn(i64, i64, i64, i64, i64, i64) -> i64 = std::mem::transmute(REAL);
            f6(a, b, c, d, e, f)
        }
    )*)* };
}

effects!(
    1 false: send sendto pwrite64;
    3 false: mkdir rmdir unlink unlinkat rename symlink linkat chmod ftruncate64;
    4 false: chdir fchdir setenv unsetenv putenv;
    5 false: sigaction sigprocmask sigaltstack;
    5 true: pthread_sigmask;
    6 true: pthread_create posix_spawn posix_spawnp;
    6 false: execvp execve;
    7 false: socket socketpair connect bind listen;
    8 false: setrlimit setrlimit64 setpriority nice umask prctl setitimer sched_setaffinity dup2 dup3 mlockall;
    8 true: pthread_setname_np pthread_setschedparam;
);
