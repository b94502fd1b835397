//! The symbolic executor.
use crate::expr::{E, FxMap, Op, Pool, mask, sext128};
use crate::ll::{BOp, FUNC_BASE, Func, I, In, Module, Opnd, Pred};
use crate::mem::Mem;
use crate::solver::{Res, Solver};
use std::rc::Rc;

pub const STACK_BASE: u64 = 0x4000_0000;
pub const STACK_SIZE: u64 = 0x0400_0000;
pub const HEAP_BASE: u64 = 0x8000_0000;
pub const HEAP_END: u64 = 0xffff_0000;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Val {
    pub v: u64,
    pub s: E,
}
#[inline]
fn cv(v: u64) -> Val {
    Val { v, s: 0 }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub rd: u32,
    pub nd: u32,
    pub sp: u64,
    pub regs: Vec<Val>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TStat {
    Run,
    Wait { addr: u64, timed: bool, d: u32 },
    Join { tid: usize },
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub sp: u64,
    pub base: u64,
    pub tls: Vec<(u64, u64)>,
    pub stat: TStat,
    pub errno: u64,
}

#[derive(Clone, Copy)]
pub struct Dom {
    pub small: bool,
    pub n: u16,
    pub bits: [u64; 4],
}

#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub brk: u64,
    pub mapped: u64,
    pub keys: u64,
    pub free: Rc<Vec<u64>>,
    pub cons: Vec<E>,
    pub multi: Vec<E>,
    pub known: Rc<FxMap<E, u64>>,
    pub doms: Rc<Vec<Dom>>,
    pub fixed: u128,
    pub model: Rc<Vec<u64>>,
    pub draws: Rc<Vec<u32>>,
    pub obs: Rc<Vec<Val>>,
    pub steps: u64,
    pub depth: u32,
    pub reach: Rc<Vec<u32>>,
}

pub enum Stop {
    Done,
    Fork(Vec<E>),
    Kill,
    Viol(String),
    Err(String),
    Budget,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Malloc,
    Free,
    Realloc,
    Calloc,
    Memalign,
    RAlloc,
    RAllocZ,
    RDealloc,
    RRealloc,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    Syscall,
    PthreadCreate,
    KeyCreate,
    KeySet,
    KeyGet,
    PthreadJoin,
    Yield,
    Errno,
    Ret0,
    RetM1,
    RetLen,
    Writev,
    Sysconf,
    PthreadSelf,
    Panic,
    Abort,
    Mmap,
    SxSym,
    SxAssume,
    SxCheck,
    SxFail,
    SxObserve,
    SxReach,
    SxConc,
    SxIsSym,
    SxNote,
    Unsupported,
}

pub struct Stats {
    pub instrs: u64,
    pub paths: u64,
    pub killed: u64,
    pub budget: u64,
    pub forks: u64,
    pub branches: u64,
    pub checks_sym: u64,
    pub checks_conc: u64,
    pub dom_sat: u64,
    pub dom_unsat: u64,
    pub model_sat: u64,
    pub unknown: u64,
    pub max_depth: u32,
    pub max_steps: u64,
    pub clones: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub pool: Pool,
    pub sol: Solver,
    pub funcs: Vec<Option<&'static Func>>,
    pub ext: Vec<Ext>,
    pub st: Stats,
    pub used: Vec<bool>,
    varmap: FxMap<(u32, u64, u64), u32>,
    cur_model: *const Vec<u64>,
    pub budget: u64,
    pub violations: Vec<(String, Vec<u64>)>,
    pub labels: FxMap<u32, u64>,
    pub trace: bool,
    pub check_unsat: bool,
    pub full_every: u64,
    pub full_checks: u64,
    pub prof: Option<Vec<u64>>,
    pub forkprof: FxMap<String, u64>,
    pub fprof: bool,
}

#[inline]
fn mask64(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
#[inline]
fn sx64(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

fn classify(n: &str, has_body: bool) -> Ext {
    match n {
        "malloc" => Ext::Malloc,
        "free" => Ext::Free,
        "realloc" => Ext::Realloc,
        "calloc" => Ext::Calloc,
        "posix_memalign" => Ext::Memalign,
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "syscall" => Ext::Syscall,
        "pthread_create" => Ext::PthreadCreate,
        "pthread_key_create" => Ext::KeyCreate,
        "pthread_setspecific" => Ext::KeySet,
        "pthread_getspecific" => Ext::KeyGet,
        "pthread_join" => Ext::PthreadJoin,
        "sched_yield" | "nanosleep" | "clock_nanosleep" => Ext::Yield,
        "__errno_location" => Ext::Errno,
        "getenv" | "dlsym" | "getauxval" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_detach" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sigaction" | "signal" | "sigaltstack" | "munmap" | "mprotect" | "poll" | "close" | "fcntl" | "pthread_attr_getguardsize" | "pthread_attr_getstack" => Ext::Ret0,
        "pthread_getattr_np" | "open64" | "stat64" | "fstat64" | "statx" | "read" | "readlink" | "lseek64" | "dl_iterate_phdr" | "_Unwind_Backtrace" => Ext::RetM1,
        "write" => Ext::RetLen,
        "writev" => Ext::Writev,
        "sysconf" => Ext::Sysconf,
        "pthread_self" | "gettid" => Ext::PthreadSelf,
        "abort" => Ext::Abort,
        "mmap64" | "mmap" => Ext::Mmap,
        "__sx_sym" => Ext::SxSym,
        "__sx_assume" => Ext::SxAssume,
        "__sx_check" => Ext::SxCheck,
        "__sx_fail" => Ext::SxFail,
        "__sx_observe" => Ext::SxObserve,
        "__sx_reach" => Ext::SxReach,
        "__sx_conc" => Ext::SxConc,
        "__sx_is_symbolic_engine" => Ext::SxIsSym,
        "__sx_note" => Ext::SxNote,
        _ => {
            if n.ends_with("12___rust_alloc") {
                Ext::RAlloc
            } else if n.ends_with("19___rust_alloc_zeroed") {
                Ext::RAllocZ
            } else if n.ends_with("14___rust_dealloc") {
                Ext::RDealloc
            } else if n.ends_with("14___rust_realloc") {
                Ext::RRealloc
            } else if n.contains("rust_begin_unwind") || n.contains("panicking13panic_handler") || n.contains("rust_panic_with_hook") || n.contains("begin_panic_handler") {
                Ext::Panic
            } else if !has_body {
                Ext::Unsupported
            } else {
                Ext::None
            }
        }
    }
}

const NCLASS: usize = 64 + 40;
fn class_of(n: u64) -> (usize, u64) {
    let n = n.max(1);
    if n <= 1024 {
        let c = n.div_ceil(16);
        (c as usize - 1, c * 16)
    } else {
        // four classes per doubling
        let mut c = 64;
        let mut sz = 1024u64;
        loop {
            for k in 1..=4 {
                let s = sz + sz / 4 * k;
                if n <= s {
                    return (c, s);
                }
                c += 1;
            }
            sz *= 2;
        }
    }
}

impl Exec {
    pub fn new(m: &'static Module, rlimit: u32) -> Exec {
        let n = m.funcs.len();
        let ext: Vec<Ext> = (0..n).map(|i| classify(m.fname(i as u32), m.funcs[i].start != usize::MAX)).collect();
        Exec {
            m,
            pool: Pool::new(),
            sol: Solver::new(rlimit),
            funcs: vec![None; n],
            ext,
            st: Stats { instrs: 0, paths: 0, killed: 0, budget: 0, forks: 0, branches: 0, checks_sym: 0, checks_conc: 0, dom_sat: 0, dom_unsat: 0, model_sat: 0, unknown: 0, max_depth: 0, max_steps: 0, clones: 0 },
            used: vec![false; n],
            varmap: FxMap::default(),
            cur_model: std::ptr::null(),
            budget: 2_000_000_000,
            violations: vec![],
            labels: FxMap::default(),
            trace: false,
            check_unsat: true,
            full_every: 97,
            full_checks: 0,
            prof: None,
            forkprof: FxMap::default(),
            fprof: false,
        }
    }

    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.m.compile(id)));
        self.funcs[id as usize] = Some(f);
        self.used[id as usize] = true;
        f
    }

    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let mut mem = Mem::new();
        let m = self.m;
        mem.map(crate::ll::GLOBAL_BASE, m.global_end - crate::ll::GLOBAL_BASE + 4096);
        for g in &m.globals {
            let b = m.global_init(g);
            for (i, &x) in b.iter().enumerate() {
                if x != 0 {
                    mem.write(g.addr + i as u64, 1, x as u64).unwrap();
                }
            }
        }
        let mut st = State {
            threads: vec![],
            cur: 0,
            mem,
            brk: HEAP_BASE,
            keys: 0,
            mapped: HEAP_BASE,
            free: Rc::new(vec![0; NCLASS]),
            cons: vec![],
            multi: vec![],
            known: Rc::new(FxMap::default()),
            doms: Rc::new(vec![]),
            fixed: 0,
            model: Rc::new(vec![]),
            draws: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            steps: 0,
            depth: 0,
            reach: Rc::new(vec![]),
        };
        let id = *m.fnames.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        self.new_thread(&mut st, id, args);
        st
    }

    fn new_thread(&mut self, st: &mut State, f: u32, args: &[u64]) -> usize {
        let tid = st.threads.len();
        let base = STACK_BASE + tid as u64 * STACK_SIZE;
        assert!(base + STACK_SIZE <= HEAP_BASE, "too many threads");
        st.mem.map(base, STACK_SIZE - 4096);
        let func = self.func(f);
        let mut regs = vec![Val::default(); func.nslots as usize];
        for (i, &a) in args.iter().enumerate() {
            regs[i] = cv(a);
        }
        let sp = base + 64;
        let fr = Frame { f: func, pc: 0, rd: 0, nd: 0, sp, regs };
        st.threads.push(Thread { frames: vec![Rc::new(fr)], sp: sp + func.frame as u64 + 16, base, tls: vec![], stat: TStat::Run, errno: base });
        tid
    }

    // ------------------------------------------------------------ constraints

    fn use_model(&mut self, st: &State) {
        let p = Rc::as_ptr(&st.model);
        if p != self.cur_model {
            self.pool.new_gen();
            self.cur_model = p;
        }
    }
    /// state models changed in place
    fn reset_model(&mut self) {
        self.cur_model = std::ptr::null();
    }
    fn eval(&mut self, st: &State, e: E) -> u64 {
        self.use_model(st);
        self.pool.eval(e, &st.model) as u64
    }
    /// concrete value of an expression in this state, if it has only one known
    fn conc(&mut self, st: &State, e: E) -> Option<u64> {
        if let Some(k) = self.pool.is_const(e) {
            return Some(k as u64);
        }
        if self.pool.vars[e as usize] & !st.fixed == 0 {
            return Some(self.eval(st, e));
        }
        st.known.get(&e).copied()
    }
    fn expr(&mut self, v: Val, w: u8) -> E {
        if v.s != 0 {
            debug_assert_eq!(self.pool.w(v.s), w);
            v.s
        } else {
            self.pool.konst(v.v as u128, w)
        }
    }
    fn wrap(&mut self, st: &State, e: E) -> Val {
        match self.conc(st, e) {
            Some(v) => cv(v),
            None => Val { v: 0, s: e },
        }
    }

    fn learn(&mut self, st: &mut State, c: E) {
        let n = self.pool.n(c);
        let known = Rc::make_mut(&mut st.known);
        known.insert(c, 1);
        match n.op {
            Op::Not if n.w == 1 => {
                known.insert(n.a, 0);
                let x = self.pool.n(n.a);
                if x.op == Op::Or {
                    let (a, b) = (self.pool.not(x.a), self.pool.not(x.b));
                    self.learn(st, a);
                    self.learn(st, b);
                }
            }
            Op::And if n.w == 1 => {
                self.learn(st, n.a);
                self.learn(st, n.b);
            }
            Op::Eq => {
                if let Some(k) = self.pool.is_const(n.b) {
                    Rc::make_mut(&mut st.known).insert(n.a, k as u64);
                } else if let Some(k) = self.pool.is_const(n.a) {
                    Rc::make_mut(&mut st.known).insert(n.b, k as u64);
                }
                let s = self.pool.bin(Op::Eq, n.a, n.b);
                if s != c && self.pool.is_const(s).is_none() {
                    self.learn(st, s);
                }
            }
            _ => {
                let nc = self.pool.not(c);
                Rc::make_mut(&mut st.known).insert(nc, 0);
            }
        }
    }

    /// add a constraint known to be satisfiable with the given model
    fn add(&mut self, st: &mut State, c: E, model: Rc<Vec<u64>>) {
        st.model = model;
        self.reset_model();
        self.learn(st, c);
        st.cons.push(c);
        self.refine(st, c);
    }

    fn refine(&mut self, st: &mut State, c: E) {
        let free = self.pool.vars[c as usize] & !st.fixed;
        if free == 0 {
            return;
        }
        if free & (free - 1) != 0 {
            st.multi.push(c);
            return;
        }
        let v = free.trailing_zeros() as usize;
        if !st.doms[v].small {
            // x == k pins a wide variable
            let val = st.known.get(&self.pool.var_expr[v]).copied();
            if let Some(k) = val {
                debug_assert_eq!(k, st.model[v]);
                st.fixed |= 1 << v;
                self.requeue(st);
            }
            return;
        }
        let lo = self.pool.varinfo[v].lo;
        let mut asg = (*st.model).clone();
        let mut d = st.doms[v];
        let mut n = 0;
        let mut last = 0;
        for b in 0..256usize {
            if d.bits[b / 64] >> (b % 64) & 1 == 1 {
                asg[v] = lo + b as u64;
                self.pool.new_gen();
                if self.pool.eval(c, &asg) == 0 {
                    d.bits[b / 64] &= !(1 << (b % 64));
                } else {
                    n += 1;
                    last = asg[v];
                }
            }
        }
        self.reset_model();
        d.n = n;
        Rc::make_mut(&mut st.doms)[v] = d;
        if n == 1 {
            st.fixed |= 1 << v;
            debug_assert_eq!(st.model[v], last);
            self.requeue(st);
        }
    }
    fn requeue(&mut self, st: &mut State) {
        let multi = std::mem::take(&mut st.multi);
        for c in multi {
            self.refine(st, c);
        }
    }

    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vars = self.pool.vars[c as usize] & !st.fixed;
        let mut out = vec![];
        let mut rest: Vec<E> = st.cons.iter().copied().filter(|&e| self.pool.vars[e as usize] & !st.fixed != 0).collect();
        loop {
            let before = rest.len();
            let mut keep = vec![];
            for e in rest {
                let v = self.pool.vars[e as usize] & !st.fixed;
                if v & vars != 0 {
                    vars |= v;
                    out.push(e);
                } else {
                    keep.push(e);
                }
            }
            rest = keep;
            if rest.len() == before {
                break;
            }
        }
        out.push(c);
        // values of the fixed variables these mention
        let mut fx = 0u128;
        for &e in &out {
            fx |= self.pool.vars[e as usize] & st.fixed;
        }
        while fx != 0 {
            let v = fx.trailing_zeros() as usize;
            fx &= fx - 1;
            let ve = self.pool.var_expr[v];
            let k = self.pool.konst(st.model[v] as u128, self.pool.varinfo[v].w);
            let eq = self.pool.bin(Op::Eq, ve, k);
            if self.pool.is_const(eq).is_none() {
                out.push(eq);
            }
        }
        out
    }

    fn z3(&mut self, st: &State, c: E) -> Option<Option<Rc<Vec<u64>>>> {
        let s = self.slice(st, c);
        match self.sol.check(&self.pool, &s) {
            Res::Unsat => {
                // cross-check a sample with the complete path condition
                if self.full_every > 0 && self.sol.st.unsat % self.full_every == 0 && s.len() < st.cons.len() + 1 {
                    let mut all = st.cons.clone();
                    all.push(c);
                    self.full_checks += 1;
                    if let Res::Sat(_) = self.sol.check(&self.pool, &all) {
                        panic!("sliced query unsat but full query sat");
                    }
                }
                Some(None)
            }
            Res::Sat(m) => {
                let mut md = (*st.model).clone();
                for (i, v) in m {
                    md[i] = v;
                }
                Some(Some(Rc::new(md)))
            }
            Res::Unknown => {
                self.st.unknown += 1;
                None
            }
        }
    }

    /// Some(Some(model)): feasible; Some(None): infeasible; None: unknown
    fn feasible(&mut self, st: &State, c: E) -> Option<Option<Rc<Vec<u64>>>> {
        if let Some(k) = self.pool.is_const(c) {
            return Some(if k != 0 { Some(st.model.clone()) } else { None });
        }
        if self.eval(st, c) != 0 {
            self.st.model_sat += 1;
            return Some(Some(st.model.clone()));
        }
        let free = self.pool.vars[c as usize] & !st.fixed;
        if free == 0 {
            return Some(None);
        }
        if free & (free - 1) == 0 {
            let v = free.trailing_zeros() as usize;
            if st.doms[v].small && !st.multi.iter().any(|&e| self.pool.vars[e as usize] >> v & 1 == 1) {
                let lo = self.pool.varinfo[v].lo;
                let mut asg = (*st.model).clone();
                let d = st.doms[v];
                for b in 0..256usize {
                    if d.bits[b / 64] >> (b % 64) & 1 == 1 {
                        asg[v] = lo + b as u64;
                        self.pool.new_gen();
                        if self.pool.eval(c, &asg) != 0 {
                            self.reset_model();
                            self.st.dom_sat += 1;
                            return Some(Some(Rc::new(asg)));
                        }
                    }
                }
                self.reset_model();
                self.st.dom_unsat += 1;
                if !self.check_unsat {
                    return Some(None);
                }
                let r = self.z3(st, c);
                if let Some(Some(_)) = r {
                    panic!("domain says unsat, solver says sat");
                }
                return r;
            }
        }
        self.z3(st, c)
    }

    /// all values an expression can take (None: more than `limit`, or unknown)
    fn values(&mut self, st: &State, e: E, limit: usize) -> Option<Vec<u64>> {
        let free = self.pool.vars[e as usize] & !st.fixed;
        let mut vs: Vec<usize> = vec![];
        let mut f = free;
        while f != 0 {
            vs.push(f.trailing_zeros() as usize);
            f &= f - 1;
        }
        let mut prod = 1u64;
        for &v in &vs {
            prod = prod.saturating_mul(if st.doms[v].small { st.doms[v].n as u64 } else { 1 << 40 });
        }
        let mut out: Vec<u64> = vec![];
        if prod <= 4096 {
            let doms: Vec<Vec<u64>> = vs
                .iter()
                .map(|&v| {
                    let d = st.doms[v];
                    let lo = self.pool.varinfo[v].lo;
                    (0..256usize).filter(|b| d.bits[b / 64] >> (b % 64) & 1 == 1).map(|b| lo + b as u64).collect()
                })
                .collect();
            let mut asg = (*st.model).clone();
            let mut ix = vec![0usize; vs.len()];
            'o: loop {
                for (k, &v) in vs.iter().enumerate() {
                    asg[v] = doms[k][ix[k]];
                }
                self.pool.new_gen();
                let x = self.pool.eval(e, &asg) as u64;
                if !out.contains(&x) {
                    out.push(x);
                    if out.len() > limit {
                        self.reset_model();
                        return None;
                    }
                }
                let mut k = 0;
                loop {
                    if k == vs.len() {
                        break 'o;
                    }
                    ix[k] += 1;
                    if ix[k] < doms[k].len() {
                        break;
                    }
                    ix[k] = 0;
                    k += 1;
                }
            }
            self.reset_model();
            out.sort_unstable();
            if self.check_unsat {
                // the solver confirms that there is no other value
                let w = self.pool.w(e);
                let mut block = self.pool.konst(1, 1);
                for &x in &out {
                    let k = self.pool.konst(x as u128, w);
                    let eq = self.pool.bin(Op::Eq, e, k);
                    let ne = self.pool.not(eq);
                    block = self.pool.bin(Op::And, block, ne);
                }
                match self.pool.is_const(block) {
                    Some(0) => {}
                    _ => {
                        let s = self.slice(st, block);
                        match self.sol.check(&self.pool, &s) {
                            Res::Unsat => {}
                            Res::Sat(_) => panic!("enumeration incomplete"),
                            Res::Unknown => return None,
                        }
                    }
                }
            }
            return Some(out);
        }
        // solver enumeration
        let w = self.pool.w(e);
        let mut block = self.pool.konst(1, 1);
        let mut first = true;
        loop {
            let x = if first {
                first = false;
                self.eval(st, e)
            } else {
                let s = self.slice(st, block);
                match self.sol.check(&self.pool, &s) {
                    Res::Unsat => break,
                    Res::Unknown => return None,
                    Res::Sat(m) => {
                        let mut md = (*st.model).clone();
                        for (i, v) in m {
                            md[i] = v;
                        }
                        self.reset_model();
                        self.pool.new_gen();
                        let x = self.pool.eval(e, &md) as u64;
                        self.reset_model();
                        x
                    }
                }
            };
            out.push(x);
            if out.len() > limit {
                return None;
            }
            let k = self.pool.konst(x as u128, w);
            let eq = self.pool.bin(Op::Eq, e, k);
            let ne = self.pool.not(eq);
            block = self.pool.bin(Op::And, block, ne);
        }
        out.sort_unstable();
        Some(out)
    }

    fn fork_values(&mut self, st: &State, e: E) -> Stop {
        match self.values(st, e, 600) {
            Some(vs) => {
                let w = self.pool.w(e);
                let alts = vs
                    .into_iter()
                    .map(|v| {
                        // not simplified: `learn` has to see the value of `e` itself
                        let k = self.pool.konst(v as u128, w);
                        self.pool.raw_eq(e, k)
                    })
                    .collect();
                Stop::Fork(alts)
            }
            None => Stop::Err(format!("too many values to concretise: {}", self.pool.show(e))),
        }
    }

    /// split a state over alternatives; infeasible ones are dropped
    pub fn split(&mut self, mut st: State, alts: Vec<E>) -> Result<Vec<State>, String> {
        let mut feas: Vec<(E, Rc<Vec<u64>>)> = vec![];
        for c in alts {
            match self.feasible(&st, c) {
                Some(Some(m)) => feas.push((c, m)),
                Some(None) => {}
                None => return Err(format!("solver gave no answer on {}", self.pool.show(c))),
            }
        }
        self.st.branches += 1;
        let n = feas.len();
        if n == 0 {
            return Err("no feasible alternative".into());
        }
        if n == 1 {
            let (c, m) = feas.pop().unwrap();
            // implied: only remember it
            st.model = m;
            self.reset_model();
            self.learn(&mut st, c);
            return Ok(vec![st]);
        }
        self.st.forks += n as u64 - 1;
        if self.fprof {
            let t = &st.threads[st.cur];
            let mut s = String::new();
            for fr in t.frames.iter().rev().take(4) {
                s.push_str(&format!("{}:{} < ", crate::demangle(&fr.f.name), fr.pc));
            }
            *self.forkprof.entry(s).or_insert(0) += n as u64 - 1;
        }
        st.depth += 1;
        self.st.max_depth = self.st.max_depth.max(st.depth);
        let mut out = Vec::with_capacity(n);
        st.mem.flush();
        let (lc, lm) = feas.pop().unwrap();
        for (c, m) in feas {
            self.st.clones += 1;
            let mut s = st.clone();
            self.add(&mut s, c, m);
            out.push(s);
        }
        st.mem.flush();
        self.add(&mut st, lc, lm);
        out.push(st);
        Ok(out)
    }

    // ------------------------------------------------------------ memory

    fn load(&mut self, st: &mut State, addr: u64, w: u8) -> Result<Val, Stop> {
        let n = (w as usize).div_ceil(8);
        match st.mem.read(addr, n) {
            Some((v, false)) => Ok(cv(v & mask64(w))),
            Some((_, true)) => {
                let mut e: E = 0;
                for i in 0..n {
                    let (b, s) = st.mem.byte(addr + i as u64).unwrap();
                    let be = if s != 0 { s } else { self.pool.konst(b as u128, 8) };
                    e = if i == 0 { be } else { self.pool.concat(be, e) };
                }
                if self.pool.w(e) != w {
                    e = self.pool.extract(e, 0, w);
                }
                Ok(self.wrap(st, e))
            }
            None => Err(Stop::Viol(format!("invalid read of {n} bytes at {addr:#x}"))),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u8) -> Result<(), Stop> {
        let n = (w as usize).div_ceil(8);
        if addr < STACK_BASE && addr >= FUNC_BASE || addr < crate::ll::GLOBAL_BASE {
            return Err(Stop::Viol(format!("invalid write of {n} bytes at {addr:#x}")));
        }
        if v.s == 0 {
            return st.mem.write(addr, n, v.v).ok_or_else(|| Stop::Viol(format!("invalid write of {n} bytes at {addr:#x}")));
        }
        if let Some(k) = self.conc(st, v.s) {
            return st.mem.write(addr, n, k).ok_or_else(|| Stop::Viol(format!("invalid write of {n} bytes at {addr:#x}")));
        }
        let mut e = v.s;
        if self.pool.w(e) as usize != n * 8 {
            e = self.pool.zext(e, (n * 8) as u8);
        }
        for i in 0..n {
            let b = self.pool.extract(e, (8 * i) as u8, 8);
            let a = addr + i as u64;
            let r = match self.pool.is_const(b) {
                Some(k) => st.mem.write(a, 1, k as u64),
                None => st.mem.write_sym(a, b),
            };
            if r.is_none() {
                return Err(Stop::Viol(format!("invalid write of {n} bytes at {addr:#x}")));
            }
        }
        Ok(())
    }

    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> u64 {
        if n > 0x2000_0000 {
            return 0;
        }
        let (c, sz) = class_of(n);
        if align <= 16 {
            let head = st.free[c];
            if head != 0 {
                let nx = st.mem.read(head, 8).unwrap().0;
                Rc::make_mut(&mut st.free)[c] = nx;
                return head;
            }
        }
        let al = align.max(16);
        let p = (st.brk + 16).div_ceil(al) * al;
        let end = p + sz;
        if end > HEAP_END {
            return 0;
        }
        if end + 16 > st.mapped {
            let to = (end + 16 + (1 << 20)).div_ceil(4096) * 4096;
            st.mem.map(st.mapped, to - st.mapped);
            st.mapped = to;
        }
        st.brk = end;
        st.mem.write(p - 16, 8, if align <= 16 { c as u64 } else { 1 << 32 }).unwrap();
        st.mem.write(p - 8, 8, sz).unwrap();
        p
    }
    fn free(&mut self, st: &mut State, p: u64) -> Result<(), Stop> {
        if p == 0 {
            return Ok(());
        }
        if p < HEAP_BASE + 16 {
            return Err(Stop::Viol("free of a non-heap pointer".into()));
        }
        let c = st.mem.read(p - 16, 8).ok_or(Stop::Viol("bad free".into()))?.0;
        if c >= 1 << 32 {
            return Ok(());
        }
        if c as usize >= NCLASS {
            return Err(Stop::Viol("free of a corrupt heap block".into()));
        }
        let head = st.free[c as usize];
        st.mem.write(p, 8, head).unwrap();
        Rc::make_mut(&mut st.free)[c as usize] = p;
        Ok(())
    }
    fn realloc(&mut self, st: &mut State, p: u64, n: u64, align: u64) -> Result<u64, Stop> {
        if p == 0 {
            return Ok(self.malloc(st, n, align));
        }
        let cap = st.mem.read(p - 8, 8).ok_or(Stop::Viol("bad realloc".into()))?.0;
        if n <= cap {
            return Ok(p);
        }
        let q = self.malloc(st, n, align);
        if q == 0 {
            return Ok(0);
        }
        st.mem.copy(q, p, cap).ok_or(Stop::Viol("bad realloc copy".into()))?;
        self.free(st, p)?;
        Ok(q)
    }

    // ------------------------------------------------------------ run

    /// need a concrete value: fork when there are several
    fn need(&mut self, st: &State, v: Val) -> Result<u64, Stop> {
        if v.s == 0 {
            return Ok(v.v);
        }
        if let Some(k) = self.conc(st, v.s) {
            return Ok(k);
        }
        Err(self.fork_values(st, v.s))
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        let m = Rc::as_ptr(&st.model);
        let _ = m;
        self.reset_model();
        let r = self.run_inner(st);
        match r {
            Ok(()) => Stop::Done,
            Err(s) => s,
        }
    }

    fn run_inner(&mut self, st: &mut State) -> Result<(), Stop> {
        'frame: loop {
            let cur = st.cur;
            // next thread or end
            if st.threads[cur].frames.is_empty() {
                if cur == 0 {
                    return Ok(());
                }
                st.threads[cur].stat = TStat::Done;
                for t in st.threads.iter_mut() {
                    if let TStat::Join { tid } = t.stat {
                        if tid == cur {
                            t.stat = TStat::Run;
                        }
                    }
                }
                self.switch(st)?;
                continue 'frame;
            }
            let fr: *mut Frame = Rc::make_mut(st.threads[cur].frames.last_mut().unwrap());
            let fr: &mut Frame = unsafe { &mut *fr };
            let f = fr.f;
            let code = &f.code[..];
            let consts = &f.consts[..];
            let mut pc = fr.pc as usize;
            macro_rules! g {
                ($o:expr) => {{
                    let o: Opnd = $o;
                    if o >= 0 { unsafe { *fr.regs.get_unchecked(o as usize) } } else { Val { v: unsafe { *consts.get_unchecked(!o as usize) }, s: 0 } }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    unsafe { *fr.regs.get_unchecked_mut($d as usize) = v };
                }};
            }
            // on a stop, the program counter stays at this instruction
            macro_rules! tr {
                ($e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(s) => {
                            fr.pc = pc as u32;
                            return Err(s);
                        }
                    }
                };
            }
            if let Some(p) = &mut self.prof {
                p[f.id as usize] += 1;
            }
            let mut left = self.budget.saturating_sub(st.steps).clamp(1, 1 << 40);
            let left0 = left;
            macro_rules! sync {
                () => {{
                    let used = left0 - left;
                    st.steps += used;
                    self.st.instrs += used;
                    #[allow(unused_assignments)]
                    {
                        left = 0;
                    }
                }};
            }
            loop {
                left -= 1;
                if left == 0 {
                    sync!();
                    fr.pc = pc as u32;
                    return Err(Stop::Budget);
                }
                let ins = unsafe { code.get_unchecked(pc) };
                match ins {
                    I::Mov { d, a } => {
                        set!(*d, g!(*a));
                    }
                    I::Load { d, a, off, w } => {
                        let av = g!(*a);
                        if av.s == 0 {
                            let addr = av.v.wrapping_add(*off as i64 as u64);
                            let n = (*w as usize + 7) / 8;
                            match st.mem.read(addr, n) {
                                Some((v, false)) => set!(*d, cv(v & mask64(*w))),
                                _ => {
                                    let v = tr!(self.load(st, addr, *w));
                                    set!(*d, v);
                                }
                            }
                        } else {
                            let v = tr!(self.load_sym(st, av.s, *off as i64, *w));
                            set!(*d, v);
                        }
                    }
                    I::Store { v, a, off, w } => {
                        let av = g!(*a);
                        let vv = g!(*v);
                        let base = if av.s == 0 { av.v } else { tr!(self.need(st, av)) };
                        let addr = base.wrapping_add(*off as i64 as u64);
                        tr!(self.store(st, addr, vv, *w));
                    }
                    I::GepC { d, a, off } => {
                        let av = g!(*a);
                        if av.s == 0 {
                            set!(*d, cv(av.v.wrapping_add(*off as u64)));
                        } else {
                            let k = self.pool.konst(*off as u64 as u128, 64);
                            let e = self.pool.bin(Op::Add, av.s, k);
                            set!(*d, self.wrap(st, e));
                        }
                    }
                    I::Gep1 { d, a, off, i, iw, s } => {
                        let av = g!(*a);
                        let iv = g!(*i);
                        if av.s | iv.s == 0 {
                            set!(*d, cv(av.v.wrapping_add(*off as u64).wrapping_add(sx64(iv.v, *iw).wrapping_mul(*s) as u64)));
                        } else {
                            let r = self.gep(st, av, *off, &[(iv, *iw, *s)]);
                            set!(*d, r);
                        }
                    }
                    I::Gep { d, a, off, idx } => {
                        let av = g!(*a);
                        let v: Vec<(Val, u8, i64)> = idx.iter().map(|x| (g!(x.0), x.1, x.2)).collect();
                        let r = self.gep(st, av, *off, &v);
                        set!(*d, r);
                    }
                    I::Bin { op, w, d, a, b } => {
                        let x = g!(*a);
                        let y = g!(*b);
                        if x.s | y.s == 0 {
                            let (x, y) = (x.v, y.v);
                            let m = mask64(*w);
                            let r = match op {
                                BOp::Add => x.wrapping_add(y) & m,
                                BOp::Sub => x.wrapping_sub(y) & m,
                                BOp::Mul => x.wrapping_mul(y) & m,
                                BOp::And => x & y,
                                BOp::Or => x | y,
                                BOp::Xor => x ^ y,
                                BOp::Shl => if y >= *w as u64 { 0 } else { (x << y) & m },
                                BOp::LShr => if y >= *w as u64 { 0 } else { x >> y },
                                BOp::AShr => (sx64(x, *w) >> y.min(*w as u64 - 1)) as u64 & m,
                                _ => tr!(bin_slow(*op, *w, x, y)),
                            };
                            set!(*d, cv(r));
                        } else {
                            let r = tr!(self.bin_sym(st, *op, *w, x, y));
                            set!(*d, r);
                        }
                    }
                    I::ICmp { p, w, d, a, b } => {
                        let x = g!(*a);
                        let y = g!(*b);
                        if x.s | y.s == 0 {
                            set!(*d, cv(icmp(*p, *w, x.v, y.v) as u64));
                        } else {
                            let r = self.icmp_sym(st, *p, *w, x, y);
                            set!(*d, r);
                        }
                    }
                    I::CondBr { c, t, f: ff } => {
                        let cvv = g!(*c);
                        let k = if cvv.s == 0 {
                            cvv.v
                        } else {
                            match self.conc(st, cvv.s) {
                                Some(k) => k,
                                None => {
                                    sync!();
                                    let n = self.pool.not(cvv.s);
                                    fr.pc = pc as u32;
                                    return Err(Stop::Fork(vec![cvv.s, n]));
                                }
                            }
                        };
                        pc = if k != 0 { *t } else { *ff } as usize;
                        continue;
                    }
                    I::Br { t } => {
                        pc = *t as usize;
                        continue;
                    }
                    I::Sel { w, d, c, a, b } => {
                        let c0 = g!(*c);
                        let x = g!(*a);
                        let y = g!(*b);
                        if c0.s == 0 {
                            set!(*d, if c0.v != 0 { x } else { y });
                        } else if let Some(k) = self.conc(st, c0.s) {
                            set!(*d, if k != 0 { x } else { y });
                        } else {
                            let (x, y) = (self.expr(x, *w), self.expr(y, *w));
                            let e = self.pool.ite(c0.s, x, y);
                            set!(*d, self.wrap(st, e));
                        }
                    }
                    I::Trunc { w, d, a } => {
                        let x = g!(*a);
                        if x.s == 0 {
                            set!(*d, cv(x.v & mask64(*w)));
                        } else {
                            let e = self.pool.extract(x.s, 0, *w);
                            set!(*d, self.wrap(st, e));
                        }
                    }
                    I::Zext { d, a, to, .. } => {
                        let x = g!(*a);
                        if x.s == 0 {
                            set!(*d, x);
                        } else {
                            let e = self.pool.zext(x.s, *to);
                            set!(*d, self.wrap(st, e));
                        }
                    }
                    I::Sext { d, a, from, to } => {
                        let x = g!(*a);
                        if x.s == 0 {
                            set!(*d, cv(sx64(x.v, *from) as u64 & mask64(*to)));
                        } else {
                            let e = self.pool.sext(x.s, *to);
                            set!(*d, self.wrap(st, e));
                        }
                    }
                    I::SignFill { d, a, from, to } => {
                        let x = tr!(self.need(st, g!(*a)));
                        set!(*d, cv(if sx64(x, *from) < 0 { mask64(*to) } else { 0 }));
                    }
                    I::Call { f: fid, args, d, nd } => {
                        let ex = self.ext[*fid as usize];
                        if ex == Ext::None {
                            let callee = match self.funcs[*fid as usize] {
                                Some(f) => f,
                                None => self.func(*fid),
                            };
                            let mut regs = vec![Val::default(); callee.nslots as usize];
                            for (i, a) in args.iter().enumerate().take(callee.nparams as usize) {
                                regs[i] = g!(*a);
                            }
                            sync!();
                            fr.pc = pc as u32 + 1;
                            let th = &mut st.threads[cur];
                            let sp = th.sp;
                            th.sp += callee.frame as u64 + 16;
                            if th.sp > th.base + STACK_SIZE - 65536 || th.frames.len() > 20000 {
                                return Err(Stop::Viol("stack overflow".into()));
                            }
                            th.frames.push(Rc::new(Frame { f: callee, pc: 0, rd: *d, nd: *nd, sp, regs }));
                            continue 'frame;
                        }
                        let av: Vec<Val> = args.iter().map(|a| g!(*a)).collect();
                        // side effects of an extern happen only when it succeeds
                        sync!();
                        let r = tr!(self.extern_call(st, ex, *fid, &av, *d));
                        let fr2: *mut Frame = Rc::make_mut(st.threads[cur].frames.last_mut().unwrap());
                        let fr2 = unsafe { &mut *fr2 };
                        fr2.pc = pc as u32 + 1;
                        if *nd > 0 {
                            fr2.regs[*d as usize] = r.0;
                        }
                        if r.1 {
                            self.switch(st)?;
                        }
                        continue 'frame;
                    }
                    I::CallInd { fp, args, d, nd } => {
                        let p = tr!(self.need(st, g!(*fp)));
                        if p < FUNC_BASE || (p - FUNC_BASE) % 16 != 0 || (p - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                            fr.pc = pc as u32;
                            return Err(Stop::Viol(format!("call of invalid function pointer {p:#x}")));
                        }
                        let fid = ((p - FUNC_BASE) / 16) as u32;
                        let ex = self.ext[fid as usize];
                        let av: Vec<Val> = args.iter().map(|a| g!(*a)).collect();
                        sync!();
                        if ex == Ext::None {
                            let callee = self.func(fid);
                            let mut regs = vec![Val::default(); callee.nslots as usize];
                            for i in 0..av.len().min(callee.nparams as usize) {
                                regs[i] = av[i];
                            }
                            fr.pc = pc as u32 + 1;
                            let th = &mut st.threads[cur];
                            let sp = th.sp;
                            th.sp += callee.frame as u64 + 16;
                            if th.sp > th.base + STACK_SIZE - 65536 || th.frames.len() > 20000 {
                                return Err(Stop::Viol("stack overflow".into()));
                            }
                            th.frames.push(Rc::new(Frame { f: callee, pc: 0, rd: *d, nd: *nd, sp, regs }));
                            continue 'frame;
                        }
                        let r = tr!(self.extern_call(st, ex, fid, &av, *d));
                        let fr2: *mut Frame = Rc::make_mut(st.threads[cur].frames.last_mut().unwrap());
                        let fr2 = unsafe { &mut *fr2 };
                        fr2.pc = pc as u32 + 1;
                        if *nd > 0 {
                            fr2.regs[*d as usize] = r.0;
                        }
                        if r.1 {
                            self.switch(st)?;
                        }
                        continue 'frame;
                    }
                    I::Ret { v } => {
                        sync!();
                        let th = &mut st.threads[cur];
                        let n = th.frames.len();
                        th.sp = fr.sp;
                        if n > 1 {
                            let (rd, nd) = (fr.rd as usize, fr.nd as usize);
                            let caller: *mut Frame = Rc::make_mut(&mut th.frames[n - 2]);
                            let caller = unsafe { &mut *caller };
                            for i in 0..nd {
                                caller.regs[rd + i] = g!(v[i]);
                            }
                        }
                        th.frames.pop();
                        continue 'frame;
                    }
                    I::Alloca { d, off } => {
                        set!(*d, cv(fr.sp + *off as u64));
                    }
                    I::AllocaDyn { d, n, size, align } => {
                        let n = tr!(self.need(st, g!(*n)));
                        let th = &mut st.threads[cur];
                        let a = th.sp.div_ceil((*align).max(16)) * (*align).max(16);
                        th.sp = a + n * size + 16;
                        set!(*d, cv(a));
                    }
                    I::Switch { v, w, cases, def } => {
                        let x = g!(*v);
                        let k = if x.s == 0 {
                            x.v
                        } else {
                            match self.conc(st, x.s) {
                                Some(k) => k,
                                None => {
                                    sync!();
                                    fr.pc = pc as u32;
                                    match self.switch_alts(st, x.s, *w, cases) {
                                        Ok(k) => {
                                            // decided: jump directly
                                            fr.pc = match k {
                                                Some(i) => cases[i].1,
                                                None => *def,
                                            };
                                            continue 'frame;
                                        }
                                        Err(s) => return Err(s),
                                    }
                                }
                            }
                        };
                        pc = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1) as usize;
                        continue;
                    }
                    I::Intr { k, w, args, d } => {
                        match k {
                            In::Memcpy => {
                                let (a, b, n) = (g!(args[0]), g!(args[1]), g!(args[2]));
                                let n = tr!(self.need(st, n));
                                if n > 0 {
                                    let a = tr!(self.need(st, a));
                                    let b = tr!(self.need(st, b));
                                    tr!(st.mem.copy(a, b, n).ok_or_else(|| Stop::Viol(format!("invalid memcpy {a:#x} {b:#x} {n}"))));
                                }
                            }
                            In::Memset => {
                                let (a, b, n) = (g!(args[0]), g!(args[1]), g!(args[2]));
                                let n = tr!(self.need(st, n));
                                let a = tr!(self.need(st, a));
                                let b = tr!(self.need(st, b));
                                tr!(st.mem.fill(a, n, b as u8).ok_or_else(|| Stop::Viol(format!("invalid memset {a:#x} {n}"))));
                            }
                            In::TlsAddr => {
                                let ga = g!(args[0]).v;
                                let a = match st.threads[cur].tls.iter().find(|x| x.0 == ga) {
                                    Some(x) => x.1,
                                    None => {
                                        let g = self.m.globals.iter().find(|g| g.addr == ga).expect("tls global");
                                        let (size, align) = (g.size, g.align);
                                        let p = self.malloc(st, size.max(8) + align, 64);
                                        st.mem.copy(p, ga, size);
                                        st.threads[cur].tls.push((ga, p));
                                        p
                                    }
                                };
                                set!(*d, cv(a));
                            }
                            In::Trap => {
                                fr.pc = pc as u32;
                                return Err(Stop::Viol("trap".into()));
                            }
                            _ => {
                                let av: Vec<Val> = args.iter().map(|a| g!(*a)).collect();
                                let r = tr!(self.intr(st, *k, *w, &av));
                                set!(*d, r.0);
                                if let Some(x) = r.1 {
                                    set!(*d + 1, x);
                                }
                            }
                        }
                    }
                    I::Unreachable => {
                        fr.pc = pc as u32;
                        return Err(Stop::Viol("unreachable executed".into()));
                    }
                    I::Bad { msg } => {
                        fr.pc = pc as u32;
                        return Err(Stop::Err(format!("unsupported instruction: {msg}")));
                    }
                    I::Rmw { op, w, d, a, v } => {
                        let a = tr!(self.need(st, g!(*a)));
                        let old = tr!(self.load(st, a, *w));
                        let x = g!(*v);
                        let nv = match op {
                            0 => x,
                            1 => tr!(self.bin(st, BOp::Add, *w, old, x)),
                            2 => tr!(self.bin(st, BOp::Sub, *w, old, x)),
                            3 => tr!(self.bin(st, BOp::And, *w, old, x)),
                            4 => tr!(self.bin(st, BOp::Or, *w, old, x)),
                            5 => tr!(self.bin(st, BOp::Xor, *w, old, x)),
                            6 => tr!(self.intr(st, In::SMax, *w, &[old, x])).0,
                            7 => tr!(self.intr(st, In::SMin, *w, &[old, x])).0,
                            8 => tr!(self.intr(st, In::UMax, *w, &[old, x])).0,
                            9 => tr!(self.intr(st, In::UMin, *w, &[old, x])).0,
                            _ => {
                                fr.pc = pc as u32;
                                return Err(Stop::Err("rmw nand".into()));
                            }
                        };
                        tr!(self.store(st, a, nv, *w));
                        set!(*d, old);
                    }
                    I::CmpXchg { w, d, a, cmp, new } => {
                        let a = tr!(self.need(st, g!(*a)));
                        let old = tr!(self.load(st, a, *w));
                        let o = tr!(self.need(st, old));
                        let c = tr!(self.need(st, g!(*cmp)));
                        let nv = g!(*new);
                        if o == c {
                            tr!(self.store(st, a, nv, *w));
                        }
                        set!(*d, cv(o));
                        set!(*d + 1, cv((o == c) as u64));
                    }
                    I::CmpXchgW { d, a, cmp, new } => {
                        let a = tr!(self.need(st, g!(*a)));
                        let l = tr!(self.load(st, a, 64));
                        let h = tr!(self.load(st, a + 8, 64));
                        let eq = l == g!(cmp[0]) && h == g!(cmp[1]);
                        let (n0, n1) = (g!(new[0]), g!(new[1]));
                        if eq {
                            tr!(self.store(st, a, n0, 64));
                            tr!(self.store(st, a + 8, n1, 64));
                        }
                        set!(*d, l);
                        set!(*d + 1, h);
                        set!(*d + 2, cv(eq as u64));
                    }
                    I::ExtractDyn { d, base, n, i } => {
                        let i = tr!(self.need(st, g!(*i)));
                        let v = fr.regs[(*base as u64 + i % *n as u64) as usize];
                        set!(*d, v);
                    }
                    I::Bits { d, dw, a, aw } => {
                        let mut all = true;
                        let vs: Vec<Val> = a.iter().map(|x| g!(*x)).collect();
                        for v in &vs {
                            if v.s != 0 {
                                all = false;
                            }
                        }
                        let total: u32 = aw.iter().map(|x| *x as u32).sum();
                        if all && total <= 128 {
                            let mut x = 0u128;
                            let mut o = 0u32;
                            for (v, w) in vs.iter().zip(aw.iter()) {
                                x |= (v.v as u128) << o;
                                o += *w as u32;
                            }
                            let mut o = 0u32;
                            for (k, w) in dw.iter().enumerate() {
                                set!(*d + k as u32, cv((x >> o) as u64 & mask64(*w)));
                                o += *w as u32;
                            }
                        } else if total <= 128 {
                            let mut e: E = 0;
                            for (v, w) in vs.iter().zip(aw.iter()) {
                                let x = self.expr(*v, *w);
                                e = if e == 0 { x } else { self.pool.concat(x, e) };
                            }
                            let mut o = 0u8;
                            for (k, w) in dw.iter().enumerate() {
                                let x = self.pool.extract(e, o, *w);
                                set!(*d + k as u32, self.wrap(st, x));
                                o += *w;
                            }
                        } else {
                            fr.pc = pc as u32;
                            return Err(Stop::Err(format!("bitcast of {total} bits")));
                        }
                    }
                    I::BinW { op, w, d, a, b } => {
                        let (r0, r1) = tr!(self.bin_wide(st, *op, *w, [g!(a[0]), g!(a[1])], [g!(b[0]), g!(b[1])]));
                        set!(*d, r0);
                        set!(*d + 1, r1);
                    }
                    I::ICmpW { p, w, d, a, b } => {
                        let x = [g!(a[0]), g!(a[1])];
                        let y = [g!(b[0]), g!(b[1])];
                        let hw = *w - 64;
                        let ex = {
                            let (h, l) = (self.expr(x[1], hw), self.expr(x[0], 64));
                            self.pool.concat(h, l)
                        };
                        let ey = {
                            let (h, l) = (self.expr(y[1], hw), self.expr(y[0], 64));
                            self.pool.concat(h, l)
                        };
                        let e = self.cmp_expr(*p, ex, ey);
                        set!(*d, self.wrap(st, e));
                    }
                    I::FCmp { p, w, d, a, b } => {
                        let x = tof(tr!(self.need(st, g!(*a))), *w);
                        let y = tof(tr!(self.need(st, g!(*b))), *w);
                        let r = match x.partial_cmp(&y) {
                            None => p & 8 != 0,
                            Some(std::cmp::Ordering::Equal) => p & 1 != 0,
                            Some(std::cmp::Ordering::Greater) => p & 2 != 0,
                            Some(std::cmp::Ordering::Less) => p & 4 != 0,
                        };
                        set!(*d, cv(r as u64));
                    }
                    I::FNeg { d, a, w } => {
                        let x = tr!(self.need(st, g!(*a)));
                        set!(*d, cv(x ^ (1u64 << (*w - 1))));
                    }
                    I::F2I { d, a, from, to, signed } => {
                        let x = tof(tr!(self.need(st, g!(*a))), *from);
                        let r = if *signed {
                            let lim = 1i128 << (*to - 1);
                            (x as i128).clamp(-lim, lim - 1) as u64
                        } else {
                            (x as u128).min(mask(*to)) as u64
                        };
                        set!(*d, cv(r & mask64(*to)));
                    }
                    I::I2F { d, a, from, to, signed } => {
                        let x = tr!(self.need(st, g!(*a)));
                        let r = if *to == 64 {
                            if *signed { (sx64(x, *from) as f64).to_bits() } else { (x as f64).to_bits() }
                        } else if *signed {
                            (sx64(x, *from) as f32).to_bits() as u64
                        } else {
                            (x as f32).to_bits() as u64
                        };
                        set!(*d, cv(r));
                    }
                    I::F2F { d, a, from, to } => {
                        let x = tr!(self.need(st, g!(*a)));
                        let r = if *from == 32 && *to == 64 { (f32::from_bits(x as u32) as f64).to_bits() } else { (f64::from_bits(x) as f32).to_bits() as u64 };
                        set!(*d, cv(r));
                    }
                }
                pc += 1;
            }
        }
    }

    fn switch(&mut self, st: &mut State) -> Result<(), Stop> {
        let n = st.threads.len();
        for k in 1..=n {
            let t = (st.cur + k) % n;
            if st.threads[t].stat == TStat::Run {
                st.cur = t;
                return Ok(());
            }
        }
        // nobody can run: let a timed wait expire
        for k in 0..n {
            let t = (st.cur + k) % n;
            if let TStat::Wait { timed: true, d, .. } = st.threads[t].stat {
                let errno = st.threads[t].errno;
                st.mem.write(errno, 4, 110).unwrap();
                let fr = Rc::make_mut(st.threads[t].frames.last_mut().unwrap());
                fr.regs[d as usize] = cv(u64::MAX);
                st.threads[t].stat = TStat::Run;
                st.cur = t;
                return Ok(());
            }
        }
        Err(Stop::Viol("deadlock: every thread waits".into()))
    }

    fn switch_alts(&mut self, st: &State, e: E, w: u8, cases: &[(u64, u32)]) -> Result<Option<usize>, Stop> {
        // group the cases by target so that only distinguishable ones fork
        let mut alts: Vec<E> = vec![];
        let mut none = self.pool.konst(1, 1);
        for (i, c) in cases.iter().enumerate() {
            let k = self.pool.konst(c.0 as u128, w);
            let eq = self.pool.bin(Op::Eq, e, k);
            match self.conc(st, eq) {
                Some(0) => continue,
                Some(_) => return Ok(Some(i)),
                None => {}
            }
            let ne = self.pool.not(eq);
            none = self.pool.bin(Op::And, none, ne);
            alts.push(eq);
        }
        match self.conc(st, none) {
            Some(0) => {}
            Some(_) => return Ok(None),
            None => alts.push(none),
        }
        Err(Stop::Fork(alts))
    }

    fn gep(&mut self, st: &State, a: Val, off: i64, idx: &[(Val, u8, i64)]) -> Val {
        let mut e = self.expr(a, 64);
        let k = self.pool.konst(off as u64 as u128, 64);
        e = self.pool.bin(Op::Add, e, k);
        for (v, w, s) in idx {
            let x = self.expr(*v, *w);
            let x = self.pool.sext(x, 64);
            let k = self.pool.konst(*s as u64 as u128, 64);
            let p = self.pool.bin(Op::Mul, x, k);
            e = self.pool.bin(Op::Add, e, p);
        }
        self.wrap(st, e)
    }

    fn load_sym(&mut self, st: &mut State, a: E, off: i64, w: u8) -> Result<Val, Stop> {
        if let Some(k) = self.conc(st, a) {
            return self.load(st, k.wrapping_add(off as u64), w);
        }
        if w < 64 {
            if let Some(vs) = self.values(st, a, 300) {
                // data load: one expression over the possible addresses.
                // Enumeration may include addresses the path rules out, so an
                // unmapped one is first checked for feasibility.
                let mut e: E = 0;
                let mut items: Vec<(u64, E)> = vec![];
                for v in &vs {
                    match self.load(st, v.wrapping_add(off as u64), w) {
                        Ok(x) => {
                            let x = self.expr(x, w);
                            items.push((*v, x));
                        }
                        Err(_) => return Err(self.fork_values(st, a)),
                    }
                }
                // group equal values
                let mut groups: Vec<(E, Vec<u64>)> = vec![];
                for (v, x) in items {
                    match groups.iter_mut().find(|g| g.0 == x) {
                        Some(g) => g.1.push(v),
                        None => groups.push((x, vec![v])),
                    }
                }
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                for (x, vs) in groups {
                    if e == 0 {
                        e = x;
                        continue;
                    }
                    let mut c = self.pool.konst(0, 1);
                    for v in vs {
                        let k = self.pool.konst(v as u128, 64);
                        let eq = self.pool.bin(Op::Eq, a, k);
                        c = self.pool.bin(Op::Or, c, eq);
                    }
                    e = self.pool.ite(c, x, e);
                }
                return Ok(self.wrap(st, e));
            }
        }
        Err(self.fork_values(st, a))
    }

    fn cmp_expr(&mut self, p: Pred, x: E, y: E) -> E {
        let pl = &mut self.pool;
        match p {
            Pred::Eq => pl.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = pl.bin(Op::Eq, x, y);
                pl.not(e)
            }
            Pred::Ult => pl.bin(Op::Ult, x, y),
            Pred::Ule => pl.bin(Op::Ule, x, y),
            Pred::Ugt => pl.bin(Op::Ult, y, x),
            Pred::Uge => pl.bin(Op::Ule, y, x),
            Pred::Slt => pl.bin(Op::Slt, x, y),
            Pred::Sle => pl.bin(Op::Sle, x, y),
            Pred::Sgt => pl.bin(Op::Slt, y, x),
            Pred::Sge => pl.bin(Op::Sle, y, x),
        }
    }
    fn icmp_sym(&mut self, st: &State, p: Pred, w: u8, x: Val, y: Val) -> Val {
        let (a, b) = (self.expr(x, w), self.expr(y, w));
        let e = self.cmp_expr(p, a, b);
        self.wrap(st, e)
    }
    fn bin(&mut self, st: &State, op: BOp, w: u8, x: Val, y: Val) -> Result<Val, Stop> {
        self.bin_sym(st, op, w, x, y)
    }
    fn bin_sym(&mut self, st: &State, op: BOp, w: u8, x: Val, y: Val) -> Result<Val, Stop> {
        let o = match op {
            BOp::Add => Op::Add,
            BOp::Sub => Op::Sub,
            BOp::Mul => Op::Mul,
            BOp::UDiv => Op::UDiv,
            BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem,
            BOp::SRem => Op::SRem,
            BOp::And => Op::And,
            BOp::Or => Op::Or,
            BOp::Xor => Op::Xor,
            BOp::Shl => Op::Shl,
            BOp::LShr => Op::LShr,
            BOp::AShr => Op::AShr,
            _ => {
                let a = self.need(st, x)?;
                let b = self.need(st, y)?;
                return Ok(cv(bin_slow(op, w, a, b)?));
            }
        };
        let (a, b) = (self.expr(x, w), self.expr(y, w));
        let e = self.pool.bin(o, a, b);
        Ok(self.wrap(st, e))
    }
    fn bin_wide(&mut self, st: &State, op: BOp, w: u8, x: [Val; 2], y: [Val; 2]) -> Result<(Val, Val), Stop> {
        let o = match op {
            BOp::Add => Op::Add,
            BOp::Sub => Op::Sub,
            BOp::Mul => Op::Mul,
            BOp::UDiv => Op::UDiv,
            BOp::URem => Op::URem,
            BOp::And => Op::And,
            BOp::Or => Op::Or,
            BOp::Xor => Op::Xor,
            BOp::Shl => Op::Shl,
            BOp::LShr => Op::LShr,
            BOp::AShr => Op::AShr,
            _ => return Err(Stop::Err(format!("wide {op:?}"))),
        };
        let hw = w - 64;
        if x[0].s | x[1].s | y[0].s | y[1].s == 0 {
            let a = (x[1].v as u128) << 64 | x[0].v as u128;
            let b = (y[1].v as u128) << 64 | y[0].v as u128;
            let r = crate::expr::eval_op(o, w, w, a, b);
            return Ok((cv(r as u64), cv((r >> 64) as u64)));
        }
        let ex = {
            let (h, l) = (self.expr(x[1], hw), self.expr(x[0], 64));
            self.pool.concat(h, l)
        };
        let ey = {
            let (h, l) = (self.expr(y[1], hw), self.expr(y[0], 64));
            self.pool.concat(h, l)
        };
        let e = self.pool.bin(o, ex, ey);
        let l = self.pool.extract(e, 0, 64);
        let h = self.pool.extract(e, 64, hw);
        Ok((self.wrap(st, l), self.wrap(st, h)))
    }

    fn intr(&mut self, st: &State, k: In, w: u8, a: &[Val]) -> Result<(Val, Option<Val>), Stop> {
        let m = mask64(w);
        let sym = a.iter().any(|x| x.s != 0);
        if !sym {
            let x = a[0].v;
            let y = if a.len() > 1 { a[1].v } else { 0 };
            let one = |v: u64| Ok((cv(v & m), None));
            return match k {
                In::UMax => one(x.max(y)),
                In::UMin => one(x.min(y)),
                In::SMax => one(sx64(x, w).max(sx64(y, w)) as u64),
                In::SMin => one(sx64(x, w).min(sx64(y, w)) as u64),
                In::Abs => one(sx64(x, w).wrapping_abs() as u64),
                In::Ctlz => one(x.leading_zeros() as u64 - (64 - w as u64)),
                In::Cttz => one((x.trailing_zeros() as u64).min(w as u64)),
                In::Ctpop => one(x.count_ones() as u64),
                In::Bswap => one(x.swap_bytes() >> (64 - w)),
                In::Bitreverse => one(x.reverse_bits() >> (64 - w)),
                In::Fshl | In::Fshr => {
                    let s = a[2].v % w as u64;
                    let c = (x as u128) << w | y as u128;
                    let r = if k == In::Fshl { (c << s) >> w } else { c >> s };
                    one(r as u64)
                }
                In::UAddSat => one(if x as u128 + y as u128 > m as u128 { m } else { x + y }),
                In::USubSat => one(x.saturating_sub(y)),
                In::SAddSat | In::SSubSat => {
                    let (p, q) = (sx64(x, w) as i128, sx64(y, w) as i128);
                    let r = if k == In::SAddSat { p + q } else { p - q };
                    let lim = 1i128 << (w - 1);
                    one(r.clamp(-lim, lim - 1) as u64)
                }
                In::UAddO => {
                    let r = x as u128 + y as u128;
                    Ok((cv(r as u64 & m), Some(cv((r > m as u128) as u64))))
                }
                In::USubO => Ok((cv(x.wrapping_sub(y) & m), Some(cv((x < y) as u64)))),
                In::UMulO => {
                    let r = x as u128 * y as u128;
                    Ok((cv(r as u64 & m), Some(cv((r > m as u128) as u64))))
                }
                In::SAddO | In::SSubO | In::SMulO => {
                    let (p, q) = (sx64(x, w) as i128, sx64(y, w) as i128);
                    let r = match k {
                        In::SAddO => p + q,
                        In::SSubO => p - q,
                        _ => p * q,
                    };
                    let t = sx64(r as u64 & m, w) as i128;
                    Ok((cv(r as u64 & m), Some(cv((t != r) as u64))))
                }
                In::Scmp | In::Ucmp => {
                    let o = if k == In::Scmp { sx64(x, w).cmp(&sx64(y, w)) } else { x.cmp(&y) };
                    let r = o as i8 as i64 as u64;
                    Ok((cv(r & mask64(a[2].v as u8)), None))
                }
                In::Psad => {
                    let mut s = 0u64;
                    for i in 0..8 {
                        s += (a[i].v as i64 - a[i + 8].v as i64).unsigned_abs();
                    }
                    Ok((cv(s), None))
                }
                In::FAbs => one(x & (m >> 1)),
                In::FUn(o) => {
                    let f = tof(x, w);
                    let r = match o {
                        0 => f.floor(),
                        1 => f.ceil(),
                        2 => f.trunc(),
                        3 => f.round(),
                        _ => f.sqrt(),
                    };
                    one(fromf(r, w))
                }
                In::VReduce(o) => {
                    let mut r = a[0].v;
                    for v in &a[1..] {
                        r = match o {
                            1 => r.wrapping_add(v.v),
                            3 => r & v.v,
                            4 => r | v.v,
                            5 => r ^ v.v,
                            8 => r.max(v.v),
                            9 => r.min(v.v),
                            _ => r.wrapping_mul(v.v),
                        };
                    }
                    one(r)
                }
                _ => Err(Stop::Err(format!("intrinsic {k:?}"))),
            };
        }
        // symbolic
        let ew = match k {
            In::Psad => 8,
            _ => w,
        };
        let nargs = if matches!(k, In::Scmp | In::Ucmp) { 2 } else { a.len() };
        let es: Vec<E> = a[..nargs].iter().map(|v| self.expr(*v, ew)).collect();
        let x = es[0];
        let y = if es.len() > 1 { es[1] } else { 0 };
        let e = match k {
            In::UMax | In::UMin | In::SMax | In::SMin => {
                let o = if matches!(k, In::UMax | In::UMin) { Op::Ult } else { Op::Slt };
                let c = self.pool.bin(o, x, y);
                if matches!(k, In::UMax | In::SMax) { self.pool.ite(c, y, x) } else { self.pool.ite(c, x, y) }
            }
            In::Abs => {
                let z = self.pool.konst(0, w);
                let c = self.pool.bin(Op::Slt, x, z);
                let n = self.pool.bin(Op::Sub, z, x);
                self.pool.ite(c, n, x)
            }
            In::USubSat => {
                let z = self.pool.konst(0, w);
                let c = self.pool.bin(Op::Ult, x, y);
                let d = self.pool.bin(Op::Sub, x, y);
                self.pool.ite(c, z, d)
            }
            In::UAddSat => {
                let s = self.pool.bin(Op::Add, x, y);
                let c = self.pool.bin(Op::Ult, s, x);
                let f = self.pool.konst(m as u128, w);
                self.pool.ite(c, f, s)
            }
            In::UAddO => {
                let s = self.pool.bin(Op::Add, x, y);
                let c = self.pool.bin(Op::Ult, s, x);
                return Ok((self.wrap(st, s), Some(self.wrap(st, c))));
            }
            In::USubO => {
                let s = self.pool.bin(Op::Sub, x, y);
                let c = self.pool.bin(Op::Ult, x, y);
                return Ok((self.wrap(st, s), Some(self.wrap(st, c))));
            }
            In::UMulO | In::SAddO | In::SSubO | In::SMulO => {
                let ww = if matches!(k, In::SAddO | In::SSubO) { w + 1 } else { 2 * w };
                let sg = k != In::UMulO;
                let (p, q) = if sg { (self.pool.sext(x, ww), self.pool.sext(y, ww)) } else { (self.pool.zext(x, ww), self.pool.zext(y, ww)) };
                let o = match k {
                    In::SAddO => Op::Add,
                    In::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.pool.bin(o, p, q);
                let t = self.pool.extract(r, 0, w);
                let b = if sg { self.pool.sext(t, ww) } else { self.pool.zext(t, ww) };
                let eq = self.pool.bin(Op::Eq, b, r);
                let ov = self.pool.not(eq);
                return Ok((self.wrap(st, t), Some(self.wrap(st, ov))));
            }
            In::Scmp | In::Ucmp => {
                let rw = a[2].v as u8;
                let o = if k == In::Scmp { Op::Slt } else { Op::Ult };
                let lt = self.pool.bin(o, x, y);
                let gt = self.pool.bin(o, y, x);
                let (mm, z, p) = (self.pool.konst(mask(rw), rw), self.pool.konst(0, rw), self.pool.konst(1, rw));
                let r = self.pool.ite(gt, p, z);
                self.pool.ite(lt, mm, r)
            }
            In::Bswap => {
                let n = w / 8;
                let mut e = self.pool.extract(x, 0, 8);
                for i in 1..n {
                    let b = self.pool.extract(x, i * 8, 8);
                    e = self.pool.concat(e, b);
                }
                e
            }
            In::Psad => {
                let mut s = self.pool.konst(0, 64);
                for i in 0..8 {
                    let (p, q) = (es[i], es[i + 8]);
                    let c = self.pool.bin(Op::Ult, p, q);
                    let d1 = self.pool.bin(Op::Sub, p, q);
                    let d2 = self.pool.bin(Op::Sub, q, p);
                    let d = self.pool.ite(c, d2, d1);
                    let d = self.pool.zext(d, 64);
                    s = self.pool.bin(Op::Add, s, d);
                }
                s
            }
            In::Ctpop => {
                let mut s = self.pool.konst(0, w);
                for i in 0..w {
                    let b = self.pool.extract(x, i, 1);
                    let b = self.pool.zext(b, w);
                    s = self.pool.bin(Op::Add, s, b);
                }
                s
            }
            In::Cttz | In::Ctlz => {
                let mut e = self.pool.konst(w as u128, w);
                for i in 0..w {
                    let bit = if k == In::Cttz { w - 1 - i } else { i };
                    let pos = if k == In::Cttz { bit } else { w - 1 - bit };
                    let b = self.pool.extract(x, bit, 1);
                    let kk = self.pool.konst(pos as u128, w);
                    e = self.pool.ite(b, kk, e);
                }
                e
            }
            In::VReduce(o) => {
                let mut r = x;
                for v in &es[1..] {
                    r = match o {
                        1 => self.pool.bin(Op::Add, r, *v),
                        3 => self.pool.bin(Op::And, r, *v),
                        4 => self.pool.bin(Op::Or, r, *v),
                        5 => self.pool.bin(Op::Xor, r, *v),
                        8 | 9 => {
                            let c = self.pool.bin(Op::Ult, r, *v);
                            if o == 8 { self.pool.ite(c, *v, r) } else { self.pool.ite(c, r, *v) }
                        }
                        _ => self.pool.bin(Op::Mul, r, *v),
                    };
                }
                r
            }
            In::Fshl | In::Fshr if a[2].s == 0 => {
                let s = (a[2].v % w as u64) as u8;
                let sh = if k == In::Fshl { s } else { w - s };
                if sh == 0 {
                    x
                } else if sh == w {
                    y
                } else {
                    let hi = self.pool.extract(x, 0, w - sh);
                    let lo = self.pool.extract(y, w - sh, sh);
                    self.pool.concat(hi, lo)
                }
            }
            _ => {
                // concretise the first symbolic argument and retry
                let mut b: Vec<Val> = vec![];
                for v in a {
                    b.push(cv(self.need(st, *v)?));
                }
                return self.intr(st, k, w, &b);
            }
        };
        Ok((self.wrap(st, e), None))
    }

    fn cstr(&self, st: &mut State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(300) {
            match st.mem.byte(p + i) {
                Some((b, _)) => v.push(b),
                None => break,
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }

    /// values drawn along this path, under a model
    pub fn inputs(&self, st: &State, model: &[u64]) -> Vec<u64> {
        st.draws.iter().map(|&v| model[v as usize]).collect()
    }

    /// returns (value, must switch thread)
    fn extern_call(&mut self, st: &mut State, ex: Ext, fid: u32, a: &[Val], d: u32) -> Result<(Val, bool), Stop> {
        macro_rules! n {
            ($i:expr) => {
                self.need(st, a[$i])?
            };
        }
        let ok = |v: u64| Ok((cv(v), false));
        match ex {
            Ext::None => unreachable!(),
            Ext::Malloc => {
                let n = n!(0);
                ok(self.malloc(st, n, 16))
            }
            Ext::RAlloc => {
                let (n, al) = (n!(0), n!(1));
                ok(self.malloc(st, n, al))
            }
            Ext::RAllocZ => {
                let (n, al) = (n!(0), n!(1));
                let p = self.malloc(st, n, al);
                if p != 0 {
                    st.mem.fill(p, n, 0);
                }
                ok(p)
            }
            Ext::Free | Ext::RDealloc => {
                let p = n!(0);
                self.free(st, p)?;
                ok(0)
            }
            Ext::Realloc => {
                let (p, n) = (n!(0), n!(1));
                let r = self.realloc(st, p, n, 16)?;
                ok(r)
            }
            Ext::RRealloc => {
                let (p, al, n) = (n!(0), n!(2), n!(3));
                let r = self.realloc(st, p, n, al)?;
                ok(r)
            }
            Ext::Calloc => {
                let n = n!(0).wrapping_mul(n!(1));
                let p = self.malloc(st, n, 16);
                if p != 0 {
                    st.mem.fill(p, n, 0);
                }
                ok(p)
            }
            Ext::Memalign => {
                let (pp, al, n) = (n!(0), n!(1), n!(2));
                let p = self.malloc(st, n, al);
                self.store(st, pp, cv(p), 64)?;
                ok(0)
            }
            Ext::Memcpy => {
                let (x, y, n) = (n!(0), n!(1), n!(2));
                st.mem.copy(x, y, n).ok_or(Stop::Viol("invalid memcpy".into()))?;
                ok(x)
            }
            Ext::Memset => {
                let (x, y, n) = (n!(0), n!(1), n!(2));
                st.mem.fill(x, n, y as u8).ok_or(Stop::Viol("invalid memset".into()))?;
                ok(x)
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = n!(2);
                if n == 0 {
                    return ok(0);
                }
                let (x, y) = (n!(0), n!(1));
                // common concrete prefix first
                let mut diffs: Vec<(E, E)> = vec![];
                for i in 0..n {
                    let (bx, sx) = st.mem.byte(x + i).ok_or_else(|| Stop::Viol("invalid memcmp".into()))?;
                    let (by, sy) = st.mem.byte(y + i).ok_or_else(|| Stop::Viol("invalid memcmp".into()))?;
                    if sx | sy == 0 {
                        if bx != by {
                            if diffs.is_empty() || ex == Ext::Bcmp {
                                return ok(if ex == Ext::Bcmp { 1 } else { (if bx < by { -1i32 } else { 1 }) as u32 as u64 });
                            }
                            let (p, q) = (self.pool.konst(bx as u128, 8), self.pool.konst(by as u128, 8));
                            diffs.push((p, q));
                            break;
                        }
                        continue;
                    }
                    let p = if sx != 0 { sx } else { self.pool.konst(bx as u128, 8) };
                    let q = if sy != 0 { sy } else { self.pool.konst(by as u128, 8) };
                    if p != q {
                        diffs.push((p, q));
                    }
                }
                let mut r = self.pool.konst(0, 32);
                let (one, neg) = (self.pool.konst(1, 32), self.pool.konst(0xffff_ffff, 32));
                if ex == Ext::Bcmp {
                    let mut c = self.pool.konst(1, 1);
                    for (p, q) in diffs {
                        let e = self.pool.bin(Op::Eq, p, q);
                        c = self.pool.bin(Op::And, c, e);
                    }
                    r = self.pool.ite(c, r, one);
                } else {
                    for (p, q) in diffs.into_iter().rev() {
                        let e = self.pool.bin(Op::Eq, p, q);
                        let l = self.pool.bin(Op::Ult, p, q);
                        let s = self.pool.ite(l, neg, one);
                        r = self.pool.ite(e, r, s);
                    }
                }
                Ok((self.wrap(st, r), false))
            }
            Ext::Strlen => {
                let p = n!(0);
                let mut k = 0;
                loop {
                    let v = self.load(st, p + k, 8)?;
                    if self.need(st, v)? == 0 {
                        break;
                    }
                    k += 1;
                }
                ok(k)
            }
            Ext::Syscall => {
                let nr = n!(0);
                match nr {
                    202 => {
                        let (addr, op, val) = (n!(1), n!(2) & 127, n!(3));
                        match op {
                            0 | 9 => {
                                let c = self.load(st, addr, 32)?;
                                let c = self.need(st, c)?;
                                if c != val & 0xffff_ffff {
                                    let errno = st.threads[st.cur].errno;
                                    st.mem.write(errno, 4, 11).unwrap();
                                    return ok(u64::MAX);
                                }
                                let timed = n!(4) != 0;
                                let cur = st.cur;
                                st.threads[cur].stat = TStat::Wait { addr, timed, d };
                                Ok((cv(0), true))
                            }
                            1 | 10 => {
                                let mut left = val & 0xffff_ffff;
                                let mut woken = 0;
                                for t in st.threads.iter_mut() {
                                    if left == 0 {
                                        break;
                                    }
                                    if let TStat::Wait { addr: ad, .. } = t.stat {
                                        if ad == addr {
                                            t.stat = TStat::Run;
                                            left -= 1;
                                            woken += 1;
                                        }
                                    }
                                }
                                ok(woken)
                            }
                            _ => Err(Stop::Err(format!("futex op {op}"))),
                        }
                    }
                    186 => ok(1000 + st.cur as u64),
                    318 => {
                        let (p, len) = (n!(1), n!(2));
                        st.mem.fill(p, len, 0x5a);
                        ok(len)
                    }
                    332 => ok(u64::MAX),
                    _ => Err(Stop::Err(format!("syscall {nr}"))),
                }
            }
            Ext::PthreadCreate => {
                let (tp, f, arg) = (n!(0), n!(2), n!(3));
                let id = ((f - FUNC_BASE) / 16) as u32;
                let t = self.new_thread(st, id, &[arg]);
                self.store(st, tp, cv(t as u64 + 1), 64)?;
                ok(0)
            }
            Ext::KeyCreate => {
                // keys are small numbers, kept with the thread-locals (no destructors run)
                let kp = n!(0);
                st.keys += 1;
                let k = st.keys;
                self.store(st, kp, cv(k), 32)?;
                ok(0)
            }
            Ext::KeySet => {
                let (k, v) = (n!(0), n!(1));
                let cur = st.cur;
                let tls = &mut st.threads[cur].tls;
                match tls.iter_mut().find(|x| x.0 == k) {
                    Some(x) => x.1 = v,
                    None => tls.push((k, v)),
                }
                ok(0)
            }
            Ext::KeyGet => {
                let k = n!(0);
                ok(st.threads[st.cur].tls.iter().find(|x| x.0 == k).map_or(0, |x| x.1))
            }
            Ext::PthreadJoin => {
                let t = n!(0) as usize - 1;
                if st.threads[t].stat == TStat::Done {
                    return ok(0);
                }
                let cur = st.cur;
                st.threads[cur].stat = TStat::Join { tid: t };
                Ok((cv(0), true))
            }
            Ext::Yield => Ok((cv(0), true)),
            Ext::Errno => ok(st.threads[st.cur].errno),
            Ext::Ret0 => ok(0),
            Ext::RetM1 => ok(u64::MAX),
            Ext::RetLen => {
                let n = n!(2);
                ok(n)
            }
            Ext::Writev => {
                let (p, n) = (n!(1), n!(2));
                let mut t = 0;
                for i in 0..n {
                    t += st.mem.read(p + 16 * i + 8, 8).unwrap_or((0, false)).0;
                }
                ok(t)
            }
            Ext::Sysconf => {
                let k = n!(0);
                ok(match k {
                    30 => 4096,
                    84 | 83 => 1,
                    _ => 16384,
                })
            }
            Ext::PthreadSelf => ok(st.cur as u64 + 1),
            Ext::Panic => Err(Stop::Viol("panic".into())),
            Ext::Abort => Err(Stop::Viol("abort".into())),
            Ext::Mmap => {
                let n = n!(1);
                let p = self.malloc(st, n, 4096);
                st.mem.fill(p, n, 0);
                ok(p)
            }
            Ext::SxIsSym => ok(1),
            Ext::SxNote => ok(0),
            Ext::SxSym => {
                let (lo, hi) = (n!(0), n!(1));
                assert!(lo <= hi);
                if lo == hi {
                    // still an input: keep the numbering of draws
                }
                let seq = st.draws.len() as u32;
                let w = (64 - hi.leading_zeros()).max(1) as u8;
                let next = self.pool.varinfo.len() as u32;
                let idx = *self.varmap.entry((seq, lo, hi)).or_insert(next);
                let e = self.pool.var(idx as usize, &format!("x{seq}"), w, lo, hi);
                Rc::make_mut(&mut st.draws).push(idx);
                // grow per-state tables
                let model = Rc::make_mut(&mut st.model);
                let doms = Rc::make_mut(&mut st.doms);
                while model.len() <= idx as usize {
                    let vi = &self.pool.varinfo[model.len()];
                    model.push(vi.lo);
                    let span = vi.hi - vi.lo;
                    let mut bits = [0u64; 4];
                    if span < 256 {
                        for b in 0..=span as usize {
                            bits[b / 64] |= 1 << (b % 64);
                        }
                    }
                    doms.push(Dom { small: span < 256, n: if span < 256 { span as u16 + 1 } else { 0 }, bits });
                }
                self.reset_model();
                if lo == hi {
                    st.fixed |= 1 << idx;
                }
                let z = self.pool.zext(e, 64);
                Ok((self.wrap(st, z), false))
            }
            Ext::SxAssume => {
                let v = a[0];
                if v.s == 0 {
                    return if v.v != 0 { ok(0) } else { Err(Stop::Kill) };
                }
                let w = self.pool.w(v.s);
                let z = self.pool.konst(0, w);
                let eq = self.pool.bin(Op::Eq, v.s, z);
                let c = self.pool.not(eq);
                match self.conc(st, c) {
                    Some(0) => return Err(Stop::Kill),
                    Some(_) => return ok(0),
                    None => {}
                }
                match self.feasible(st, c) {
                    Some(Some(m)) => {
                        self.add(st, c, m);
                        ok(0)
                    }
                    Some(None) => Err(Stop::Kill),
                    None => Err(Stop::Err("solver gave no answer on an assumption".into())),
                }
            }
            Ext::SxCheck => {
                let v = a[0];
                let msg = |s: &mut Self, st: &mut State| s.cstr(st, a[1].v, a[2].v);
                if v.s == 0 {
                    self.st.checks_conc += 1;
                    if v.v != 0 {
                        return ok(0);
                    }
                    let s = msg(self, st);
                    return Err(Stop::Viol(s));
                }
                let w = self.pool.w(v.s);
                let z = self.pool.konst(0, w);
                let bad = self.pool.bin(Op::Eq, v.s, z);
                match self.conc(st, bad) {
                    Some(0) => {
                        self.st.checks_conc += 1;
                        return ok(0);
                    }
                    Some(_) => {
                        let s = msg(self, st);
                        return Err(Stop::Viol(s));
                    }
                    None => {}
                }
                self.st.checks_sym += 1;
                match self.feasible(st, bad) {
                    Some(None) => {
                        let good = self.pool.not(bad);
                        self.learn(st, good);
                        ok(0)
                    }
                    Some(Some(m)) => {
                        let s = msg(self, st);
                        st.model = m;
                        self.reset_model();
                        Err(Stop::Viol(s))
                    }
                    None => Err(Stop::Err("solver gave no answer on a check".into())),
                }
            }
            Ext::SxFail => {
                let (p, n) = (n!(0), n!(1));
                let s = self.cstr(st, p, n);
                Err(Stop::Viol(s))
            }
            Ext::SxObserve => {
                let v = a[0];
                Rc::make_mut(&mut st.obs).push(v);
                ok(0)
            }
            Ext::SxReach => {
                let l = n!(0) as u32;
                if !st.reach.contains(&l) {
                    Rc::make_mut(&mut st.reach).push(l);
                }
                ok(0)
            }
            Ext::SxConc => {
                let v = n!(0);
                ok(v)
            }
            Ext::Unsupported => Err(Stop::Err(format!("extern {}", self.m.fname(fid)))),
        }
    }

    pub fn digest(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for i in 0..st.obs.len() {
            let v = st.obs[i];
            let x = if v.s == 0 { v.v } else { self.eval(st, v.s) };
            h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        }
        h
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for fr in st.threads[st.cur].frames.iter().rev().take(30) {
            s.push_str(&format!("  {} @{}\n", crate::demangle(&fr.f.name), fr.pc));
        }
        s
    }
}

fn tof(v: u64, w: u8) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) }
}
fn fromf(v: f64, w: u8) -> u64 {
    if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() }
}

#[inline]
fn icmp(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx64(x, w) < sx64(y, w),
        Pred::Sle => sx64(x, w) <= sx64(y, w),
        Pred::Sgt => sx64(x, w) > sx64(y, w),
        Pred::Sge => sx64(x, w) >= sx64(y, w),
    }
}

fn bin_slow(op: BOp, w: u8, x: u64, y: u64) -> Result<u64, Stop> {
    let m = mask64(w);
    Ok(match op {
        BOp::UDiv | BOp::URem | BOp::SDiv | BOp::SRem if y == 0 => return Err(Stop::Viol("division by zero".into())),
        BOp::UDiv => x / y,
        BOp::URem => x % y,
        BOp::SDiv => (sext128(x as u128, w) / sext128(y as u128, w)) as u64 & m,
        BOp::SRem => (sext128(x as u128, w) % sext128(y as u128, w)) as u64 & m,
        BOp::FAdd => fromf(tof(x, w) + tof(y, w), w),
        BOp::FSub => fromf(tof(x, w) - tof(y, w), w),
        BOp::FMul => fromf(tof(x, w) * tof(y, w), w),
        BOp::FDiv => fromf(tof(x, w) / tof(y, w), w),
        BOp::FRem => fromf(tof(x, w) % tof(y, w), w),
        _ => unreachable!(),
    })
}
