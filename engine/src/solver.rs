//! The SMT back end: Z3 (QF_BV) through its C interface.
use crate::expr::{E, FxMap, Op, Pool};
use std::ffi::{CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, l: P, r: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_bvadd(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvsub(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvmul(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvudiv(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvsdiv(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvurem(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvsrem(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvand(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvor(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvxor(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvshl(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvlshr(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvashr(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvult(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvule(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvslt(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvsle(c: P, l: P, r: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, l: P, r: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_dec_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_global_param_set(id: *const c_char, v: *const c_char);
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub nanos: u64,
    pub max_nanos: u64,
    /// answered by the second solver
    pub second: u64,
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(usize, u64)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    sorts: FxMap<u8, P>,
    cache: FxMap<Vec<E>, Res>,
    pub st: SolverStats,
    /// when set, every n-th query is written here as SMT-LIB text with its verdict
    pub dump: Option<(String, u64)>,
    npushes: u32,
    rlimit: u32,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let k = CString::new("parallel.enable").unwrap();
            let v = CString::new("false").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            let mut s = Solver { c, s: std::ptr::null_mut(), bv: vec![], bl: vec![], sorts: FxMap::default(), cache: FxMap::default(), st: SolverStats::default(), dump: None, npushes: 0, rlimit };
            s.fresh();
            s
        }
    }
    fn fresh(&mut self) {
        unsafe {
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.c, s, p);
            self.s = s;
        }
    }
    fn sort(&mut self, w: u8) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w as u32);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn num(&mut self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let h = self.num(v >> 64, w - 64);
                Z3_inc_ref(self.c, h);
                let l = self.num(v & u64::MAX as u128, 64);
                Z3_inc_ref(self.c, l);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn tb(&mut self, pool: &Pool, e: E) -> P {
        let i = e as usize;
        if self.bl.len() <= i {
            self.bl.resize(pool.nodes.len(), std::ptr::null_mut());
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        let n = pool.n(e);
        let c = self.c;
        debug_assert!(n.w == 1);
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let a = self.num(n.k, 1);
                    Z3_inc_ref(c, a);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, a, one)
                }
                Op::Eq if pool.w(n.a) == 1 => {
                    let (a, b) = (self.tb(pool, n.a), self.tb(pool, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.t(pool, n.a), self.t(pool, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.t(pool, n.a), self.t(pool, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.t(pool, n.a), self.t(pool, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.t(pool, n.a), self.t(pool, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.t(pool, n.a), self.t(pool, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::Not => {
                    let a = self.tb(pool, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let x = [self.tb(pool, n.a), self.tb(pool, n.b)];
                    Z3_mk_and(c, 2, x.as_ptr())
                }
                Op::Or => {
                    let x = [self.tb(pool, n.a), self.tb(pool, n.b)];
                    Z3_mk_or(c, 2, x.as_ptr())
                }
                Op::Xor => {
                    let (a, b) = (self.tb(pool, n.a), self.tb(pool, n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let (i, a, b) = (self.tb(pool, n.a), self.tb(pool, n.b), self.tb(pool, n.c));
                    Z3_mk_ite(c, i, a, b)
                }
                _ => {
                    let a = self.t(pool, e);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.bl.len() <= i {
            self.bl.resize(pool.nodes.len(), std::ptr::null_mut());
        }
        self.bl[i] = r;
        r
    }
    fn t(&mut self, pool: &Pool, e: E) -> P {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(pool.nodes.len(), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = pool.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Nil => panic!(),
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let nm = CString::new(format!("v{}", n.k)).unwrap();
                    let s = self.sort(n.w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.tb(pool, e);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    let z = self.num(0, 1);
                    Z3_inc_ref(c, z);
                    Z3_mk_ite(c, b, one, z)
                }
                Op::Not => {
                    let a = self.t(pool, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Zext => {
                    let a = self.t(pool, n.a);
                    Z3_mk_zero_ext(c, (n.w - pool.w(n.a)) as u32, a)
                }
                Op::Sext => {
                    let a = self.t(pool, n.a);
                    Z3_mk_sign_ext(c, (n.w - pool.w(n.a)) as u32, a)
                }
                Op::Extract => {
                    let a = self.t(pool, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a)
                }
                Op::Ite => {
                    let (i, a, b) = (self.tb(pool, n.a), self.t(pool, n.b), self.t(pool, n.c));
                    Z3_mk_ite(c, i, a, b)
                }
                _ => {
                    let (a, b) = (self.t(pool, n.a), self.t(pool, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe {
            Z3_inc_ref(c, r);
            let ec = Z3_get_error_code(c);
            assert!(ec == 0, "z3 error {ec} building {}", pool.show(e));
        }
        if self.bv.len() <= i {
            self.bv.resize(pool.nodes.len(), std::ptr::null_mut());
        }
        self.bv[i] = r;
        r
    }

    fn second(pool: &Pool, vars: u128, text: &str) -> Option<Res> {
        use std::io::Write;
        use std::process::{Command, Stdio};
        let mut q = format!("(set-logic QF_BV)\n{text}(check-sat)\n");
        let mut names = vec![];
        for i in 0..pool.varinfo.len() {
            if vars >> i & 1 == 1 {
                names.push(i);
            }
        }
        let nm: Vec<String> = names.iter().map(|i| format!("v{}", pool.n(pool.var_expr[*i]).k)).collect();
        // a variable that the query lost in simplification has no declaration
        let have: Vec<usize> = (0..names.len()).filter(|k| text.contains(&format!("declare-fun {} ", nm[*k]))).collect();
        if !have.is_empty() {
            q += &format!("(get-value ({}))\n", have.iter().map(|k| nm[*k].clone()).collect::<Vec<_>>().join(" "));
        }
        let mut c = Command::new("cvc5")
            .args(["--lang=smt2", "--produce-models", "--bv-print-consts-as-indexed-symbols", "--tlimit=60000", "-"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        c.stdin.take()?.write_all(q.as_bytes()).ok()?;
        let o = c.wait_with_output().ok()?;
        let o = String::from_utf8_lossy(&o.stdout).to_string();
        if o.starts_with("unsat") {
            return Some(Res::Unsat);
        }
        if !o.starts_with("sat") {
            return None;
        }
        let mut out = vec![];
        for (k, i) in names.iter().enumerate() {
            if !have.contains(&k) {
                out.push((*i, pool.varinfo[*i].lo));
                continue;
            }
            // (v3 (_ bv12 8))
            let pat = format!("({} (_ bv", nm[k]);
            let p = o.find(&pat)? + pat.len();
            let d: String = o[p..].chars().take_while(|c| c.is_ascii_digit()).collect();
            out.push((*i, d.parse().ok()?));
        }
        Some(Res::Sat(out))
    }
    /// Asserts the conjunction and the ranges of its variables.
    fn assert_all(&mut self, pool: &Pool, key: &[E], vars: u128, s: P) {
        unsafe {
            for i in 0..pool.varinfo.len() {
                if vars >> i & 1 == 1 {
                    let vi = &pool.varinfo[i];
                    let (w, lo, hi) = (vi.w, vi.lo, vi.hi);
                    let v = self.t(pool, pool.var_expr[i]);
                    if lo != 0 {
                        let k = self.num(lo as u128, w);
                        Z3_inc_ref(self.c, k);
                        let b = Z3_mk_bvule(self.c, k, v);
                        Z3_solver_assert(self.c, s, b);
                    }
                    if hi as u128 != crate::expr::mask(w) {
                        let k = self.num(hi as u128, w);
                        Z3_inc_ref(self.c, k);
                        let b = Z3_mk_bvule(self.c, v, k);
                        Z3_solver_assert(self.c, s, b);
                    }
                }
            }
            for &e in key {
                let b = self.tb(pool, e);
                Z3_solver_assert(self.c, s, b);
            }
        }
    }

    /// Is the conjunction satisfiable (with the declared ranges of the variables)?
    pub fn check(&mut self, pool: &Pool, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let mut vars = 0u128;
        for &e in &key {
            vars |= pool.vars[e as usize];
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            self.npushes += 1;
            self.assert_all(pool, &key, vars, self.s);
            let mut cur = self.s;
            let mut verdict = Z3_solver_check(self.c, cur);
            let mut told: Option<Res> = None;
            if verdict == 0 {
                // the incremental core gave up: a second solver on the same text
                let text = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                told = Self::second(pool, vars, &text);
                if told.is_some() {
                    self.st.second += 1;
                }
            }
            if verdict == 0 && told.is_none() {
                // the incremental core gave up: bit-blast the whole query
                let n = CString::new("qfbv").unwrap();
                let t = Z3_mk_tactic(self.c, n.as_ptr());
                Z3_tactic_inc_ref(self.c, t);
                cur = Z3_mk_solver_from_tactic(self.c, t);
                Z3_solver_inc_ref(self.c, cur);
                Z3_tactic_dec_ref(self.c, t);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 60_000);
                Z3_solver_set_params(self.c, cur, p);
                self.assert_all(pool, &key, vars, cur);
                verdict = Z3_solver_check(self.c, cur);
            }
            let r = match verdict {
                _ if told.is_some() => told.unwrap(),
                1 => {
                    let m = Z3_solver_get_model(self.c, cur);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..pool.varinfo.len() {
                        if vars >> i & 1 == 1 {
                            let v = self.t(pool, pool.var_expr[i]);
                            let mut r: P = std::ptr::null_mut();
                            let ok = Z3_model_eval(self.c, m, v, true, &mut r);
                            assert!(ok);
                            Z3_inc_ref(self.c, r);
                            let mut u = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, r, &mut u));
                            out.push((i, u));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if cur != self.s {
                Z3_solver_dec_ref(self.c, cur);
            }
            if let Some((path, n)) = &self.dump {
                if self.st.queries % n == 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    use std::io::Write;
                    let verdict = match r {
                        Res::Sat(_) => "sat",
                        Res::Unsat => "unsat",
                        _ => "unknown",
                    };
                    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
                        let _ = f.write_all(format!("; verdict {verdict}\n(set-logic QF_BV)\n{s}(check-sat)\n; end\n").as_bytes());
                    }
                }
            }
            let ec = Z3_get_error_code(self.c);
            assert!(ec == 0, "z3 error {ec}");
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.st.queries += 1;
        self.st.nanos += dt;
        self.st.max_nanos = self.st.max_nanos.max(dt);
        match r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }
}
