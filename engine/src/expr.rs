//! Hash-consed bit-vector expressions with a small simplifier and an evaluator.
//! Expression ids are u32; id 0 means "no expression" (a concrete value).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            self.write_u64(x);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Nil,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,     // bitwise not
    Zext,
    Sext,
    Extract, // a = expr, k = low bit
    Concat,  // a = high, b = low
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    /// bit set of the variables an expression depends on
    pub vars: Vec<u128>,
    pub varinfo: Vec<VarInfo>,
    pub var_expr: Vec<E>,
    cache: Vec<(u32, u128)>,
    genr: u32,
}

/// Evaluate one binary/unary operator on concrete values.
pub fn eval_op(op: Op, w: u8, aw: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext128(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, aw) < sext128(b, aw)) as u128,
        Op::Sle => (sext128(a, aw) <= sext128(b, aw)) as u128,
        Op::Not => !a & m,
        Op::Zext => a,
        Op::Sext => (sext128(a, aw) as u128) & m,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Self {
        let nil = Node { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Pool {
            nodes: vec![nil],
            map: FxMap::default(),
            vars: vec![0],
            varinfo: vec![],
            var_expr: vec![],
            cache: vec![(0, 0)],
            genr: 1,
        }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let v = match n.op {
            Op::Var => 1u128 << (n.k as u32 & 127),
            _ => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
        };
        self.nodes.push(n);
        self.vars.push(v);
        self.cache.push((0, 0));
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, v: u128, w: u8) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    /// A variable, by index. The same index always denotes the same variable.
    pub fn var(&mut self, idx: usize, name: &str, w: u8, lo: u64, hi: u64) -> E {
        if idx < self.varinfo.len() {
            let vi = &self.varinfo[idx];
            if vi.w == w && vi.lo == lo && vi.hi == hi && vi.name == name {
                return self.var_expr[idx];
            }
            panic!("variable {idx} redeclared differently: {} {} {} {} vs {name} {w} {lo} {hi}", vi.name, vi.w, vi.lo, vi.hi);
        }
        assert_eq!(idx, self.varinfo.len());
        assert!(idx < 128, "more than 128 symbolic variables");
        self.varinfo.push(VarInfo { name: name.to_string(), w, lo, hi });
        let e = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 });
        self.var_expr.push(e);
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn zext(&mut self, e: E, w: u8) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        if n.w > w {
            return self.extract(e, 0, w);
        }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::Zext => self.zext(n.a, w),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let b = self.zext(n.b, w);
                let c = self.zext(n.c, w);
                self.ite(n.a, b, c)
            }
            _ => self.intern(Node { op: Op::Zext, w, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = sext128(n.k, n.w) as u128;
                self.konst(v, w)
            }
            Op::Zext => self.zext(n.a, w),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let b = self.sext(n.b, w);
                let c = self.sext(n.c, w);
                self.ite(n.a, b, c)
            }
            _ => self.intern(Node { op: Op::Sext, w, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let n = self.n(e);
        if lo == 0 && n.w == w {
            return e;
        }
        debug_assert!(lo + w <= n.w, "extract {lo}+{w} of {}", n.w);
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u8, w),
            Op::Zext => {
                let aw = self.w(n.a);
                if lo >= aw {
                    self.konst(0, w)
                } else if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, aw - lo);
                    self.zext(x, w)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::Ite if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() => {
                let b = self.extract(n.b, lo, w);
                let c = self.extract(n.c, lo, w);
                self.ite(n.a, b, c)
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                self.bin(n.op, a, b)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                self.bin(n.op, a, b)
            }
            Op::Sext => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else {
                    self.intern(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::Shl => {
                if let Some(s) = self.is_const(n.b) {
                    let s = s as u8;
                    if s < n.w {
                        if lo >= s {
                            return self.extract(n.a, lo - s, w);
                        } else if lo + w <= s {
                            return self.konst(0, w);
                        }
                    }
                }
                self.intern(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
            }
            Op::LShr => {
                if let Some(s) = self.is_const(n.b) {
                    let s = s as u32;
                    if s + lo as u32 + w as u32 <= n.w as u32 {
                        return self.extract(n.a, lo + s as u8, w);
                    }
                }
                self.intern(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
            }
            _ => self.intern(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w + l.w;
        if h.op == Op::Const && l.op == Op::Const {
            return self.konst((h.k << l.w) | l.k, w);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k as u8 == l.k as u8 + l.w {
            return self.extract(h.a, l.k as u8, w);
        }
        // Extract(x, k..) ++ x  when x is the low part (whole expression extracted as identity)
        if h.op == Op::Extract && l.op == Op::Concat {
            let ll = self.n(l.a);
            if ll.op == Op::Extract && ll.a == h.a && h.k as u8 == ll.k as u8 + ll.w {
                let x = self.extract(h.a, ll.k as u8, h.w + ll.w);
                return self.concat(x, l.b);
            }
        }
        // the low part of the same value, computed in its own width
        if h.op == Op::Extract && h.k as u8 == l.w && self.w(h.a) <= 64 && self.extract(h.a, 0, l.w) == lo {
            return self.extract(h.a, 0, w);
        }
        // zero-extended byte on top of ...: keep simple
        self.intern(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn not(&mut self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::Const => self.konst(!n.k, n.w),
            Op::Not => n.a,
            Op::Ult if n.w == 1 => self.bin(Op::Ule, n.b, n.a),
            Op::Ule if n.w == 1 => self.bin(Op::Ult, n.b, n.a),
            Op::Slt if n.w == 1 => self.bin(Op::Sle, n.b, n.a),
            Op::Sle if n.w == 1 => self.bin(Op::Slt, n.b, n.a),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let b = self.not(n.b);
                let c = self.not(n.c);
                self.ite(n.a, b, c)
            }
            _ => self.intern(Node { op: Op::Not, w: n.w, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        let an = self.n(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == Op::Ite && bn.b == a {
            let cc = self.bin(Op::Or, c, bn.a);
            return self.ite(cc, a, bn.c);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    /// Binary operators and comparisons (comparisons have width 1).
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (an, bn) = (self.n(a), self.n(b));
        debug_assert_eq!(an.w, bn.w, "{op:?} width mismatch");
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => an.w,
        };
        if an.op == Op::Const && bn.op == Op::Const {
            let v = eval_op(op, w, an.w, an.k, bn.k);
            return self.konst(v, w);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        // constants to the right, otherwise order by id
        if commut && (an.op == Op::Const || (bn.op != Op::Const && a > b)) {
            return self.bin(op, b, a);
        }
        let m = mask(an.w);
        if bn.op == Op::Const {
            let k = bn.k;
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And if k == 0 => return b,
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Xor if k == m => return self.not(a),
                Op::Mul if k == 0 => return b,
                Op::Mul if k == 1 => return a,
                Op::UDiv if k == 1 => return a,
                Op::Sub => {
                    let nk = self.konst(k.wrapping_neg(), an.w);
                    return self.bin(Op::Add, a, nk);
                }
                Op::Add if an.op == Op::Add => {
                    if let Some(k2) = self.is_const(an.b) {
                        let s = self.konst(k.wrapping_add(k2), an.w);
                        return self.bin(Op::Add, an.a, s);
                    }
                }
                Op::And if an.op == Op::And => {
                    if let Some(k2) = self.is_const(an.b) {
                        let s = self.konst(k & k2, an.w);
                        return self.bin(Op::And, an.a, s);
                    }
                }
                // mask of low bits = zext(extract)
                Op::And if k.wrapping_add(1) & k == 0 && k != m => {
                    let bits = k.count_ones() as u8;
                    let x = self.extract(a, 0, bits);
                    let z = self.zext(x, an.w);
                    return z;
                }
                Op::Mul if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, an.w);
                    return self.bin(Op::Shl, a, s);
                }
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, an.w);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let s = self.konst(k - 1, an.w);
                    return self.bin(Op::And, a, s);
                }
                Op::Shl | Op::LShr if k >= an.w as u128 => return self.konst(0, an.w),
                Op::LShr => {
                    let s = k as u8;
                    let x = self.extract(a, s, an.w - s);
                    return self.zext(x, an.w);
                }
                Op::Eq if an.w == 1 => return if k == 1 { a } else { self.not(a) },
                Op::Eq => match an.op {
                    Op::Zext => {
                        let iw = self.w(an.a);
                        if k > mask(iw) {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Eq, an.a, kk);
                    }
                    Op::Sext => {
                        let iw = self.w(an.a);
                        let kk = k & mask(iw);
                        if (sext128(kk, iw) as u128) & m != k {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(kk, iw);
                        return self.bin(Op::Eq, an.a, kk);
                    }
                    Op::Add => {
                        if let Some(k2) = self.is_const(an.b) {
                            let kk = self.konst(k.wrapping_sub(k2), an.w);
                            return self.bin(Op::Eq, an.a, kk);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = self.is_const(an.b) {
                            let kk = self.konst(k ^ k2, an.w);
                            return self.bin(Op::Eq, an.a, kk);
                        }
                        if k == 0 {
                            return self.bin(Op::Eq, an.a, an.b);
                        }
                    }
                    Op::Not => {
                        let kk = self.konst(!k, an.w);
                        return self.bin(Op::Eq, an.a, kk);
                    }
                    Op::Concat => {
                        let lw = self.w(an.b);
                        let hk = self.konst(k >> lw, an.w - lw);
                        let lk = self.konst(k, lw);
                        let h = self.bin(Op::Eq, an.a, hk);
                        let l = self.bin(Op::Eq, an.b, lk);
                        return self.bin(Op::And, h, l);
                    }
                    Op::Or => {
                        if k == 0 {
                            let z = self.konst(0, an.w);
                            let x = self.bin(Op::Eq, an.a, z);
                            let y = self.bin(Op::Eq, an.b, z);
                            return self.bin(Op::And, x, y);
                        }
                    }
                    Op::Shl => {
                        // (x << s) == k
                        if let Some(s) = self.is_const(an.b) {
                            let s = s as u8;
                            if s < an.w {
                                if k & mask(s) != 0 {
                                    return self.konst(0, 1);
                                }
                                let x = self.extract(an.a, 0, an.w - s);
                                let kk = self.konst(k >> s, an.w - s);
                                return self.bin(Op::Eq, x, kk);
                            }
                        }
                    }
                    Op::Ite => {
                        let (tb, tc) = (self.is_const(an.b), self.is_const(an.c));
                        if tb.is_some() || tc.is_some() {
                            let x = self.bin(Op::Eq, an.b, b);
                            let y = self.bin(Op::Eq, an.c, b);
                            return self.ite(an.a, x, y);
                        }
                    }
                    _ => {}
                },
                Op::Ult if k == 0 => return self.konst(0, 1),
                Op::Ult if k == 1 => {
                    let z = self.konst(0, an.w);
                    return self.bin(Op::Eq, a, z);
                }
                Op::Ule if k == m => return self.konst(1, 1),
                Op::Ule if k == 0 => return self.bin(Op::Eq, a, b),
                Op::Ult | Op::Ule if an.op == Op::Zext => {
                    let iw = self.w(an.a);
                    if k > mask(iw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.bin(op, an.a, kk);
                }
                Op::Slt | Op::Sle if an.op == Op::Zext => {
                    // left operand is non-negative
                    let sk = sext128(k, an.w);
                    if sk < 0 {
                        return self.konst(0, 1);
                    }
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                _ => {}
            }
            if an.op == Op::Ite
                && self.is_const(an.b).is_some()
                && self.is_const(an.c).is_some()
            {
                let x = self.bin(op, an.b, b);
                let y = self.bin(op, an.c, b);
                return self.ite(an.a, x, y);
            }
        }
        if an.op == Op::Const {
            let k = an.k;
            match op {
                Op::Ult if k == m => return self.konst(0, 1),
                Op::Ule if k == 0 => return self.konst(1, 1),
                Op::Ult | Op::Ule if bn.op == Op::Zext => {
                    let iw = self.w(bn.a);
                    if k > mask(iw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.bin(op, kk, bn.a);
                }
                Op::Slt | Op::Sle if bn.op == Op::Zext => {
                    let sk = sext128(k, an.w);
                    if sk < 0 {
                        return self.konst(1, 1);
                    }
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                _ => {}
            }
            if bn.op == Op::Ite
                && self.is_const(bn.b).is_some()
                && self.is_const(bn.c).is_some()
            {
                let x = self.bin(op, a, bn.b);
                let y = self.bin(op, a, bn.c);
                return self.ite(bn.a, x, y);
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        if an.w == 1 && w == 1 {
            // boolean absorption
            match op {
                Op::And => {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(0, 1);
                    }
                }
                Op::Or => {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(1, 1);
                    }
                }
                _ => {}
            }
        }
        if an.op == Op::Zext && bn.op == Op::Zext && self.w(an.a) == self.w(bn.a) {
            match op {
                Op::Eq | Op::Ult | Op::Ule => return self.bin(op, an.a, bn.a),
                Op::Slt => return self.bin(Op::Ult, an.a, bn.a),
                Op::Sle => return self.bin(Op::Ule, an.a, bn.a),
                Op::And | Op::Or | Op::Xor => {
                    let x = self.bin(op, an.a, bn.a);
                    return self.zext(x, w);
                }
                _ => {}
            }
        }
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    /// `a == b` as written
    pub fn raw_eq(&mut self, a: E, b: E) -> E {
        self.intern(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    /// Forget cached values: the next evaluations use a new assignment.
    pub fn new_gen(&mut self) {
        self.genr = self.genr.wrapping_add(1);
        if self.genr == 0 {
            for c in self.cache.iter_mut() {
                c.0 = 0;
            }
            self.genr = 1;
        }
    }
    /// Evaluate under an assignment. Call new_gen() before using a different one.
    pub fn eval(&mut self, e: E, asg: &[u64]) -> u128 {
        let (g, v) = self.cache[e as usize];
        if g == self.genr {
            return v;
        }
        let n = self.nodes[e as usize];
        let v = match n.op {
            Op::Nil => 0,
            Op::Const => n.k,
            Op::Var => asg.get(n.k as usize).copied().unwrap_or_else(|| self.varinfo[n.k as usize].lo) as u128,
            Op::Extract => (self.eval(n.a, asg) >> n.k) & mask(n.w),
            Op::Concat => {
                let h = self.eval(n.a, asg);
                let l = self.eval(n.b, asg);
                (h << self.w(n.b)) | l
            }
            Op::Ite => {
                if self.eval(n.a, asg) != 0 {
                    self.eval(n.b, asg)
                } else {
                    self.eval(n.c, asg)
                }
            }
            Op::Not | Op::Zext | Op::Sext => {
                let a = self.eval(n.a, asg);
                eval_op(n.op, n.w, self.w(n.a), a, 0)
            }
            _ => {
                let a = self.eval(n.a, asg);
                let b = self.eval(n.b, asg);
                eval_op(n.op, n.w, self.w(n.a), a, b)
            }
        };
        self.cache[e as usize] = (self.genr, v);
        v
    }
    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return format!("e{e}");
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => self.varinfo[n.k as usize].name.clone(),
            Op::Extract => format!("{}[{}+{}]", self.show_d(n.a, d - 1), n.k, n.w),
            Op::Ite => format!("({}?{}:{})", self.show_d(n.a, d - 1), self.show_d(n.b, d - 1), self.show_d(n.c, d - 1)),
            Op::Not | Op::Zext | Op::Sext => format!("{:?}{}({})", n.op, n.w, self.show_d(n.a, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show_d(n.a, d - 1), self.show_d(n.b, d - 1)),
        }
    }
}
