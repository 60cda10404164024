//! Makes a failing scenario smaller while it keeps failing in the same way.

use crate::{
    exec::Engine,
    props::{judge, tie, Violation},
    scenario::{Buf, Env, Op, Scenario, Sym, EVENTS},
};
use std::time::{Duration, Instant};

pub struct Mini<'a> {
    pub e: &'a mut Engine,
    pub class: String,
    pub best: Scenario,
    pub last: Violation,
    pub tries: u32,
    until: Instant,
}

impl<'a> Mini<'a> {
    pub fn new(e: &'a mut Engine, sc: Scenario, v: Violation, budget: Duration) -> Self {
        Self { e, class: v.class.clone(), best: sc, last: v, tries: 0, until: Instant::now() + budget }
    }

    fn over(&self) -> bool {
        Instant::now() > self.until || self.tries > 6000
    }

    fn attempt(&mut self, mut sc: Scenario) -> bool {
        tie(&mut sc);
        if sc == self.best || self.over() {
            return false;
        }
        self.tries += 1;
        let res = self.e.run(&sc);
        match judge(&sc, &res, self.e) {
            Ok(Some(v)) if v.class == self.class => {
                self.best = sc;
                self.last = v;
                true
            }
            _ => false,
        }
    }

    /// Removes as many of n items as possible.
    fn ddmin(&mut self, n: usize, remove: &dyn Fn(&Scenario, usize, usize) -> Option<Scenario>) -> bool {
        let mut any = false;
        let mut size = n;
        while size > 0 {
            let mut i = 0;
            loop {
                if self.over() {
                    return any;
                }
                let Some(sc) = remove(&self.best, i, size) else { break };
                if self.attempt(sc) {
                    any = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        any
    }

    pub fn run(&mut self) {
        loop {
            let mut any = false;
            if self.best.kind != "longer" {
                any |= self.threads();
                any |= self.ops();
            }
            any |= self.details();
            any |= self.sched();
            any |= self.env();
            any |= self.symbols();
            if !any || self.over() {
                break;
            }
        }
        self.unused();
    }

    fn threads(&mut self) -> bool {
        let mut any = false;
        let mut t = self.best.threads.len();
        while t > 0 && self.best.threads.len() > 1 {
            t -= 1;
            let mut sc = self.best.clone();
            sc.threads.remove(t);
            sc.sched.retain(|x| x.0 as usize != t);
            for x in &mut sc.sched {
                if x.0 as usize > t {
                    x.0 -= 1;
                }
            }
            any |= self.attempt(sc);
        }
        any
    }

    fn ops(&mut self) -> bool {
        let mut any = false;
        for t in 0..self.best.threads.len() {
            let n = self.best.threads[t].len();
            any |= self.ddmin(n, &|sc, i, k| {
                let ops = &sc.threads[t];
                if i >= ops.len() {
                    return None;
                }
                let mut s = sc.clone();
                s.threads[t].drain(i..(i + k).min(ops.len()));
                Some(s)
            });
        }
        any
    }

    fn details(&mut self) -> bool {
        let mut any = false;
        for t in 0..self.best.threads.len() {
            for i in 0..self.best.threads[t].len() {
                let tries: Vec<Box<dyn Fn(&mut Op)>> = vec![
                    Box::new(|o| o.faults.clear()),
                    Box::new(|o| o.nest.clear()),
                    Box::new(|o| o.nest.truncate(1)),
                    Box::new(|o| {
                        if !o.nest.is_empty() {
                            o.nest.remove(0);
                        }
                    }),
                    Box::new(|o| o.nest.iter_mut().for_each(|x| x.1.nest.clear())),
                    Box::new(|o| o.fork = None),
                    Box::new(|o| {
                        if let Some(f) = &mut o.fork {
                            f.1.truncate(1);
                        }
                    }),
                    Box::new(|o| o.stall = None),
                    Box::new(|o| o.keep = false),
                    Box::new(|o| o.dropping = false),
                    Box::new(|o| o.nest.iter_mut().for_each(|x| x.1.dropping = false)),
                    Box::new(|o| o.leaving = 0),
                    Box::new(|o| o.again = 0),
                    Box::new(|o| o.again /= 2),
                    Box::new(|o| o.again = o.again.saturating_sub(1)),
                    Box::new(|o| o.buf = None),
                    Box::new(|o| o.flags = 0),
                    Box::new(|o| o.flags &= o.flags.wrapping_sub(1)),
                    Box::new(|o| o.nest.iter_mut().for_each(|x| x.1.flags = 0)),
                ];
                for f in tries {
                    loop {
                        let mut sc = self.best.clone();
                        let Some(op) = sc.threads[t].get_mut(i) else { break };
                        f(op);
                        if !self.attempt(sc) {
                            break;
                        }
                        any = true;
                    }
                }
            }
        }
        for b in 0..self.best.bufs.len() {
            for simple in [Buf::default(), Buf { content: Sym::default(), ..self.best.bufs[b].clone() }, Buf { cap: 0, ..self.best.bufs[b].clone() }] {
                let mut sc = self.best.clone();
                sc.bufs[b] = simple;
                any |= self.attempt(sc);
            }
        }
        any
    }

    fn sched(&mut self) -> bool {
        let n = self.best.sched.len();
        let mut any = false;
        if n > 0 {
            let mut sc = self.best.clone();
            sc.sched.clear();
            any |= self.attempt(sc);
        }
        any |= self.ddmin(n, &|sc, i, k| {
            if i >= sc.sched.len() {
                return None;
            }
            let mut s = sc.clone();
            s.sched.drain(i..(i + k).min(sc.sched.len()));
            Some(s)
        });
        // join neighbours of the same thread
        let mut i = 0;
        while i + 1 < self.best.sched.len() {
            let (a, b) = (self.best.sched[i], self.best.sched[i + 1]);
            if a.0 == b.0 && a.1 & EVENTS == b.1 & EVENTS {
                let mut sc = self.best.clone();
                sc.sched.remove(i + 1);
                sc.sched[i].1 = (a.1 & !EVENTS).saturating_add(b.1 & !EVENTS).min(!EVENTS) | a.1 & EVENTS;
                if self.attempt(sc) {
                    any = true;
                    continue;
                }
            }
            i += 1;
        }
        any
    }

    fn env(&mut self) -> bool {
        let mut any = false;
        let tries: Vec<Box<dyn Fn(&mut Env)>> = vec![
            Box::new(|e| {
                *e = Env { stack_kib: e.stack_kib, heap_limit: e.heap_limit, step_limit: e.step_limit, hooked: e.hooked, ..Env::default() };
            }),
            Box::new(|e| e.fill = 0),
            Box::new(|e| e.reuse = false),
            Box::new(|e| e.scatter = false),
            Box::new(|e| e.seed = 0),
            Box::new(|e| e.clock = 0),
            Box::new(|e| e.jumps.clear()),
            Box::new(|e| e.getenv = None),
            Box::new(|e| e.stack_used = 0),
            Box::new(|e| e.place = 0),
            Box::new(|e| e.pid = 0),
            Box::new(|e| e.born = 0),
            Box::new(|e| e.name = None),
            Box::new(|e| e.streams = 0),
        ];
        for f in tries {
            let mut sc = self.best.clone();
            f(&mut sc.env);
            any |= self.attempt(sc);
        }
        any
    }

    fn symbols(&mut self) -> bool {
        // texts that define the expected outcome stay as they are
        let tied = self.best.kind == "longer";
        if !self.best.expect.is_empty() && !tied || self.best.kind.contains("MiB") || self.best.prop == "C10" {
            return false;
        }
        let mut any = false;
        let n = if tied { 1 } else { self.best.syms.len() };
        for s in 0..n {
            for p in 0..self.best.syms[s].0.len() {
                loop {
                    let n = self.best.syms[s].0[p].1;
                    let mut sc = self.best.clone();
                    sc.syms[s].0[p].1 = n / 2;
                    if n > 1 && self.attempt(sc) {
                        any = true;
                        continue;
                    }
                    let mut sc = self.best.clone();
                    sc.syms[s].0[p].1 = n.saturating_sub(1);
                    if n > 1 && self.attempt(sc) {
                        any = true;
                        continue;
                    }
                    break;
                }
                let n = self.best.syms[s].0[p].0.chars().count();
                if n > 400 {
                    continue;
                }
                any |= self.ddmin(n, &|sc, i, k| {
                    let c: Vec<char> = sc.syms[s].0[p].0.chars().collect();
                    if i >= c.len() {
                        return None;
                    }
                    let mut x = sc.clone();
                    x.syms[s].0[p].0 = c[..i].iter().chain(&c[(i + k).min(c.len())..]).collect();
                    Some(x)
                });
            }
        }
        any
    }

    /// Drops symbols nobody uses any more.
    fn unused(&mut self) {
        let mut sc = self.best.clone();
        if sc.kind.contains("MiB") || sc.prop == "C10" || sc.prop == "C07" || sc.kind == "longer" {
            return;
        }
        fn visit(op: &mut Op, f: &mut dyn FnMut(&mut usize)) {
            f(&mut op.sym);
            for x in &mut op.nest {
                visit(&mut x.1, f);
            }
            if let Some(x) = &mut op.fork {
                for o in &mut x.1 {
                    visit(o, f);
                }
            }
        }
        let mut used = vec![false; sc.syms.len()];
        for op in sc.threads.iter_mut().flatten() {
            visit(op, &mut |s| used[*s] = true);
        }
        let mut map = vec![0; used.len()];
        let mut kept = Vec::new();
        for (i, u) in used.iter().enumerate() {
            if *u {
                map[i] = kept.len();
                kept.push(sc.syms[i].clone());
            }
        }
        sc.syms = kept;
        for op in sc.threads.iter_mut().flatten() {
            visit(op, &mut |s| *s = map[*s]);
        }
        self.until = Instant::now() + Duration::from_secs(30);
        self.attempt(sc);
    }
}
