//! Reader for textual LLVM IR (whole-program, post-LTO) and its lazy
//! translation to a flat register bytecode.
use crate::expr::FxMap;
use std::rc::Rc;

// ---------------------------------------------------------------- types

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!()
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off {self:?}"),
        }
    }
    /// leaves: (byte offset, width in bits (<= 64))
    pub fn leaves(&self) -> Vec<(u32, u8)> {
        let mut v = vec![];
        self.leaves_into(0, &mut v);
        v
    }
    fn leaves_into(&self, o: u32, v: &mut Vec<(u32, u8)>) {
        match self {
            Ty::Int(n) if *n <= 64 => v.push((o, *n as u8)),
            Ty::Int(n) => {
                assert!(*n <= 128);
                v.push((o, 64));
                v.push((o + 8, (*n - 64) as u8));
            }
            Ty::Ptr | Ty::Double => v.push((o, 64)),
            Ty::Float => v.push((o, 32)),
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    let b = t.bits();
                    if b % 8 == 0 {
                        v.push((o + i * b / 8, b as u8));
                    } else {
                        v.push((u32::MAX, b as u8));
                    }
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves_into(o + (i * t.size()) as u32, v);
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.leaves_into(o + self.field_off(i) as u32, v);
                }
            }
            Ty::Void | Ty::Other => {}
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Int(n) => if *n <= 64 { 1 } else { 2 },
            Ty::Ptr | Ty::Double | Ty::Float => 1,
            Ty::Vec(n, _) => *n as usize,
            Ty::Arr(n, t) => *n as usize * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
    fn elem(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Struct(f, _) => (f[..i].iter().map(|t| t.nslots()).sum(), f[i].clone()),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.nslots(), (**t).clone()),
            _ => panic!(),
        }
    }
}

// ---------------------------------------------------------------- bytecode

pub type Opnd = i32; // >= 0: register slot, < 0: constant !x

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum In {
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Scmp,
    Ucmp,
    Psad,
    TlsAddr,
    Trap,
    Cpuid,
    Xgetbv,
    FAbs,
    FUn(u8),
    VReduce(u8),
}

#[derive(Clone, Debug)]
pub enum I {
    Mov { d: u32, a: Opnd },
    Bin { op: BOp, w: u8, d: u32, a: Opnd, b: Opnd },
    BinW { op: BOp, w: u8, d: u32, a: [Opnd; 2], b: [Opnd; 2] },
    ICmp { p: Pred, w: u8, d: u32, a: Opnd, b: Opnd },
    ICmpW { p: Pred, w: u8, d: u32, a: [Opnd; 2], b: [Opnd; 2] },
    FCmp { p: u8, w: u8, d: u32, a: Opnd, b: Opnd },
    Sel { w: u8, d: u32, c: Opnd, a: Opnd, b: Opnd },
    Trunc { w: u8, d: u32, a: Opnd },
    Zext { d: u32, a: Opnd, from: u8, to: u8 },
    Sext { d: u32, a: Opnd, from: u8, to: u8 },
    /// 64-bit all-ones/zero of the sign bit (high half of a wide sext)
    SignFill { d: u32, a: Opnd, from: u8, to: u8 },
    /// reinterpret a sequence of bit fields as another: (slots, widths)
    Bits { d: u32, dw: Box<[u8]>, a: Box<[Opnd]>, aw: Box<[u8]> },
    F2I { d: u32, a: Opnd, from: u8, to: u8, signed: bool },
    I2F { d: u32, a: Opnd, from: u8, to: u8, signed: bool },
    F2F { d: u32, a: Opnd, from: u8, to: u8 },
    FNeg { d: u32, a: Opnd, w: u8 },
    Load { d: u32, a: Opnd, off: i32, w: u8 },
    Store { v: Opnd, a: Opnd, off: i32, w: u8 },
    GepC { d: u32, a: Opnd, off: i64 },
    Gep1 { d: u32, a: Opnd, off: i64, i: Opnd, iw: u8, s: i64 },
    Gep { d: u32, a: Opnd, off: i64, idx: Box<[(Opnd, u8, i64)]> },
    Alloca { d: u32, off: u32 },
    AllocaDyn { d: u32, n: Opnd, size: u64, align: u64 },
    Call { f: u32, args: Box<[Opnd]>, d: u32, nd: u32 },
    CallInd { fp: Opnd, args: Box<[Opnd]>, d: u32, nd: u32 },
    Intr { k: In, w: u8, args: Box<[Opnd]>, d: u32 },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { v: Opnd, w: u8, cases: Box<[(u64, u32)]>, def: u32 },
    Ret { v: Box<[Opnd]> },
    Unreachable,
    /// op: 0 xchg 1 add 2 sub 3 and 4 or 5 xor 6 max 7 min 8 umax 9 umin 10 nand
    Rmw { op: u8, w: u8, d: u32, a: Opnd, v: Opnd },
    CmpXchg { w: u8, d: u32, a: Opnd, cmp: Opnd, new: Opnd },
    CmpXchgW { d: u32, a: Opnd, cmp: [Opnd; 2], new: [Opnd; 2] },
    ExtractDyn { d: u32, base: u32, n: u32, i: Opnd },
    Bad { msg: Box<str> },
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub code: Vec<I>,
    pub nslots: u32,
    pub consts: Vec<u64>,
    pub nparams: u32,
    pub frame: u32,
}

#[derive(Clone, Copy)]
pub struct FuncDecl {
    pub start: usize, // offset of the define line; usize::MAX when only declared
    pub name: (usize, usize),
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub tls: bool,
    pub constant: bool,
    pub ty: Ty,
    pub init: usize, // text offset of the initialiser, 0 when external
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x2000_0000;

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<FuncDecl>,
    pub fnames: FxMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gnames: FxMap<&'static str, u32>,
    pub types: FxMap<&'static str, Ty>,
    pub aliases: FxMap<&'static str, &'static str>,
    pub global_end: u64,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Local(&'static str),
    Global(&'static str),
    Word(&'static str),
    Num(&'static str),
    Str(&'static str),  // "..."
    CStr(&'static str), // c"..."
    Meta,
    P(u8),
    NL,
    Eof,
}

#[derive(Clone)]
pub struct Lx {
    s: &'static [u8],
    t: &'static str,
    pub p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Lx {
    pub fn new(t: &'static str, p: usize) -> Lx {
        Lx { s: t.as_bytes(), t, p }
    }
    fn name(&mut self) -> &'static str {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = &self.t[st..self.p];
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1;
            }
            &self.t[st..self.p]
        }
    }
    pub fn next(&mut self) -> T {
        loop {
            if self.p >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'\n' => {
                    self.p += 1;
                    return T::NL;
                }
                b'%' => {
                    self.p += 1;
                    return T::Local(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return T::Global(self.name());
                }
                b'!' | b'#' => {
                    self.p += 1;
                    if self.p < self.s.len() && is_id(self.s[self.p]) {
                        self.name();
                    }
                    return T::Meta;
                }
                b'"' => return T::Str(self.name()),
                b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                    self.p += 1;
                    return T::CStr(self.name());
                }
                _ if c.is_ascii_digit() || (c == b'-' && self.s[self.p + 1].is_ascii_digit()) || (c == b'+' && (self.s[self.p + 1].is_ascii_alphanumeric())) => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.s.len() && (is_id(self.s[self.p]) || (self.s[self.p] == b'+' && self.s[self.p - 1] == b'e')) {
                        self.p += 1;
                    }
                    return T::Num(&self.t[st..self.p]);
                }
                _ if is_id(c) => {
                    let st = self.p;
                    while self.p < self.s.len() && is_id(self.s[self.p]) {
                        self.p += 1;
                    }
                    return T::Word(&self.t[st..self.p]);
                }
                _ => {
                    self.p += 1;
                    return T::P(c);
                }
            }
        }
    }
    pub fn peek(&self) -> T {
        let mut c = self.clone();
        c.next()
    }
    fn next_nnl(&mut self) -> T {
        loop {
            let t = self.next();
            if t != T::NL {
                return t;
            }
        }
    }
    fn expect(&mut self, c: u8) {
        let at = self.p;
        let t = self.next_nnl();
        if t != T::P(c) {
            panic!("expected {:?} got {:?} near {:?}", c as char, t, self.ctx(at));
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if let T::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn ctx(&self, at: usize) -> &'static str {
        let a = self.t[..at].rfind('\n').map_or(0, |x| x + 1);
        let b = self.t[at..].find('\n').map_or(self.t.len(), |x| x + at);
        &self.t[a..b.min(a + 400)]
    }
    fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn skip_parens(&mut self) {
        // after '(' was peeked
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = (b[i + 1] as char).to_digit(16).unwrap() * 16 + (b[i + 2] as char).to_digit(16).unwrap();
                o.push(h as u8);
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn parse_float(s: &str, double: bool) -> u64 {
    let v: f64 = if let Some(h) = s.strip_prefix("0x") {
        // always printed as a double bit pattern
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {s}")))
    } else if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap();
    } else if s == "+inf" {
        f64::INFINITY
    } else if s == "-inf" {
        f64::NEG_INFINITY
    } else if s.contains("nan") || s.contains("NaN") {
        f64::NAN
    } else {
        s.parse().unwrap_or_else(|_| panic!("float {s}"))
    };
    if double { v.to_bits() } else { (v as f32).to_bits() as u64 }
}

fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
    } else if let Some(h) = s.strip_prefix("u0x") {
        u128::from_str_radix(h, 16).unwrap()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
    }
}

// ---------------------------------------------------------------- module

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module {
            text,
            funcs: vec![],
            fnames: FxMap::default(),
            globals: vec![],
            gnames: FxMap::default(),
            types: FxMap::default(),
            aliases: FxMap::default(),
            global_end: 0,
        };
        let b = text.as_bytes();
        let mut p = 0;
        let mut gl: Vec<usize> = vec![];
        while p < b.len() {
            let e = memchr_nl(b, p);
            match b[p] {
                b'@' => gl.push(p),
                b'%' => {
                    let mut lx = Lx::new(text, p);
                    let T::Local(n) = lx.next() else { panic!() };
                    lx.expect(b'=');
                    if lx.eat_word("type") && !lx.eat_word("opaque") {
                        let t = m.ty(&mut lx);
                        m.types.insert(n, t);
                    }
                }
                b'd' if text[p..].starts_with("define") || text[p..].starts_with("declare") => {
                    let def = text[p..].starts_with("define");
                    let line = &text[p..e];
                    let at = line.find('@').unwrap();
                    let mut lx = Lx::new(text, p + at);
                    let T::Global(n) = lx.next() else { panic!() };
                    let id = m.funcs.len() as u32;
                    let weak = line[..at].contains("extern_weak");
                    let off = n.as_ptr() as usize - text.as_ptr() as usize;
                    m.funcs.push(FuncDecl { start: if def { p } else { usize::MAX }, name: (off, n.len()), weak });
                    m.fnames.insert(n, id);
                }
                _ => {}
            }
            p = e + 1;
        }
        let mut addr = GLOBAL_BASE;
        for p in gl {
            let mut lx = Lx::new(text, p);
            let T::Global(n) = lx.next() else { panic!() };
            lx.expect(b'=');
            let mut tls = false;
            let mut external = false;
            let mut alias = false;
            let constant;
            loop {
                match lx.next() {
                    T::Word("thread_local") => {
                        tls = true;
                        if lx.peek() == T::P(b'(') {
                            lx.skip_parens();
                        }
                    }
                    T::Word("external") | T::Word("extern_weak") => external = true,
                    T::Word("global") => {
                        constant = false;
                        break;
                    }
                    T::Word("constant") => {
                        constant = true;
                        break;
                    }
                    T::Word("alias") => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    T::Word("addrspace") => lx.skip_parens(),
                    T::NL | T::Eof => panic!("global {n}"),
                    _ => {}
                }
            }
            let ty = m.ty(&mut lx);
            if alias {
                lx.expect(b',');
                m.ty(&mut lx);
                if let T::Global(g) = lx.next() {
                    m.aliases.insert(n, g);
                } else {
                    panic!("alias {n}");
                }
                continue;
            }
            let init = if external { 0 } else { lx.p };
            let line = lx.ctx(p);
            let full = &text[p..p + text[p..].find('\n').unwrap_or(line.len())];
            let mut align = ty.align();
            if let Some(k) = full.rfind(", align ") {
                let s: String = full[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                align = s.parse().unwrap_or(align);
            }
            let size = ty.size();
            addr = addr.div_ceil(align.max(16)) * align.max(16);
            let id = m.globals.len() as u32;
            m.globals.push(Global { name: n.to_string(), addr, size, align, tls, constant, ty, init });
            m.gnames.insert(n, id);
            addr += size.max(1);
        }
        m.global_end = addr.div_ceil(4096) * 4096;
        assert!(m.global_end < FUNC_BASE);
        m
    }

    pub fn fname(&self, id: u32) -> &'static str {
        let (o, l) = self.funcs[id as usize].name;
        &self.text[o..o + l]
    }

    /// address of a global symbol (function or variable); TLS variables give None
    pub fn symbol(&self, mut n: &'static str) -> u64 {
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        if let Some(&f) = self.fnames.get(n) {
            let d = &self.funcs[f as usize];
            if d.weak && d.start == usize::MAX && !weak_provided(n) {
                return 0;
            }
            return FUNC_BASE + 16 * f as u64;
        }
        if let Some(&g) = self.gnames.get(n) {
            return self.globals[g as usize].addr;
        }
        panic!("unknown symbol {n}");
    }

    pub fn global_init(&self, g: &Global) -> Vec<u8> {
        let mut out = vec![0u8; g.size as usize];
        if g.init != 0 {
            let mut lx = Lx::new(self.text, g.init);
            self.const_bytes(&mut lx, &g.ty, &mut out, 0);
        }
        out
    }

    fn const_bytes(&self, lx: &mut Lx, ty: &Ty, out: &mut [u8], off: usize) {
        match lx.peek() {
            T::Word("zeroinitializer") | T::Word("undef") | T::Word("poison") => {
                lx.next();
            }
            T::CStr(s) => {
                lx.next();
                let b = unescape(s);
                out[off..off + b.len()].copy_from_slice(&b);
            }
            T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                let packed = lx.eat(b'<') && matches!(ty, Ty::Struct(..));
                if matches!(ty, Ty::Struct(..)) {
                    lx.expect(b'{');
                } else if matches!(ty, Ty::Arr(..)) {
                    lx.expect(b'[');
                }
                let mut i = 0;
                loop {
                    match lx.peek() {
                        T::P(b'}') | T::P(b']') | T::P(b'>') => break,
                        T::P(b',') => {
                            lx.next();
                        }
                        _ => {
                            let t = self.ty(lx);
                            self.const_bytes(lx, &t, out, off + ty.field_off(i) as usize);
                            i += 1;
                        }
                    }
                }
                lx.next();
                if packed {
                    lx.expect(b'>');
                }
            }
            _ => {
                let v = self.const_scalar(lx, ty);
                let n = ty.size() as usize;
                for k in 0..n.min(16) {
                    out[off + k] = (v >> (8 * k)) as u8;
                }
            }
        }
    }

    fn const_scalar(&self, lx: &mut Lx, ty: &Ty) -> u128 {
        let at = lx.p;
        match lx.next_nnl() {
            T::Num(s) => match ty {
                Ty::Float => parse_float(s, false) as u128,
                Ty::Double => parse_float(s, true) as u128,
                Ty::Int(w) => parse_int(s) & crate::expr::mask(*w as u8),
                _ => panic!("num {s} for {ty:?}"),
            },
            T::Word("true") => 1,
            T::Word("false") | T::Word("null") | T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") => 0,
            T::Word(w) if w.starts_with("u0x") => parse_int(w) & crate::expr::mask(ty.bits() as u8),
            T::Word(w) if matches!(ty, Ty::Float | Ty::Double) => parse_float(w, *ty == Ty::Double) as u128,
            T::Global(n) => self.symbol(n) as u128,
            T::Word("getelementptr") => {
                while let T::Word(w) = lx.peek() {
                    if w == "inrange" {
                        lx.next();
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                lx.expect(b',');
                self.ty(lx);
                let mut a = self.const_scalar(lx, &Ty::Ptr) as u64;
                let mut cur = t;
                let mut first = true;
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let v = self.const_scalar(lx, &it);
                    let v = crate::expr::sext128(v, it.bits() as u8) as i64;
                    if first {
                        a = a.wrapping_add((v * cur.size() as i64) as u64);
                        first = false;
                    } else {
                        a = a.wrapping_add(cur.field_off(v as usize));
                        cur = cur.elem(v as usize).1;
                    }
                }
                lx.expect(b')');
                a as u128
            }
            T::Word("ptrtoint") | T::Word("inttoptr") | T::Word("trunc") | T::Word("bitcast") => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let v = self.const_scalar(lx, &t);
                assert!(lx.eat_word("to"));
                let t2 = self.ty(lx);
                lx.expect(b')');
                v & crate::expr::mask(t2.bits() as u8)
            }
            T::Word(op @ ("sub" | "add" | "xor" | "mul")) => {
                while let T::Word(_) = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                let a = self.const_scalar(lx, &t);
                lx.expect(b',');
                let t = self.ty(lx);
                let b = self.const_scalar(lx, &t);
                lx.expect(b')');
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                r & crate::expr::mask(t.bits() as u8)
            }
            t => panic!("const {t:?} in {:?}", lx.ctx(at)),
        }
    }

    pub fn ty(&self, lx: &mut Lx) -> Ty {
        let at = lx.p;
        let mut t = match lx.next_nnl() {
            T::Word("void") => Ty::Void,
            T::Word("ptr") => Ty::Ptr,
            T::Word("float") => Ty::Float,
            T::Word("double") => Ty::Double,
            T::Word("metadata") | T::Word("label") | T::Word("token") => Ty::Other,
            T::Word(w) if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
            T::Local(n) => self.types.get(n).unwrap_or_else(|| panic!("type {n}")).clone(),
            T::P(b'<') => {
                if lx.peek() == T::P(b'{') {
                    let s = self.ty(lx);
                    lx.expect(b'>');
                    if let Ty::Struct(f, _) = s { Ty::Struct(f, true) } else { panic!() }
                } else {
                    let T::Num(n) = lx.next() else { panic!("vector type {:?}", lx.ctx(at)) };
                    assert!(lx.eat_word("x"));
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n.parse().unwrap(), Rc::new(e))
                }
            }
            T::P(b'[') => {
                let T::Num(n) = lx.next() else { panic!("array type {:?}", lx.ctx(at)) };
                assert!(lx.eat_word("x"));
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n.parse().unwrap(), Rc::new(e))
            }
            T::P(b'{') => {
                let mut f = vec![];
                if !lx.eat(b'}') {
                    loop {
                        f.push(self.ty(lx));
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                    lx.expect(b'}');
                }
                Ty::Struct(Rc::new(f), false)
            }
            t => panic!("type {t:?} in {:?}", lx.ctx(at)),
        };
        // function type of an indirect/variadic call: ret (args...)
        if lx.peek() == T::P(b'(') && matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Void) {
            let save = lx.clone();
            lx.next();
            if matches!(lx.peek(), T::Word(_) | T::P(b'.') | T::P(b')')) {
                *lx = save;
                lx.skip_parens();
            } else {
                *lx = save;
            }
        }
        if let Ty::Other = t {
            t = Ty::Other;
        }
        t
    }

    pub fn compile(&self, id: u32) -> Func {
        let d = self.funcs[id as usize];
        assert!(d.start != usize::MAX, "no body for {}", self.fname(id));
        let mut c = FnC {
            m: self,
            lx: Lx::new(self.text, d.start),
            vals: FxMap::default(),
            blocks: FxMap::default(),
            nslots: 0,
            consts: vec![],
            cmap: FxMap::default(),
            code: vec![],
            frame: 0,
            cur: "",
            phis: vec![],
            fix: vec![],
            name: self.fname(id),
        };
        let nparams = c.run();
        Func { id, name: self.fname(id).to_string(), nslots: c.nslots, consts: c.consts, code: c.code, nparams, frame: c.frame.div_ceil(16) * 16 }
    }
}

/// externs that may be weakly linked and that the engine provides
fn weak_provided(n: &str) -> bool {
    matches!(n, "__cxa_thread_atexit_impl" | "getrandom" | "gettid")
}

fn memchr_nl(b: &[u8], p: usize) -> usize {
    b[p..].iter().position(|&c| c == b'\n').map_or(b.len(), |x| x + p)
}

struct Phi {
    block: &'static str,
    d: u32,
    n: usize,
    inc: Vec<(Vec<Opnd>, &'static str)>,
}

struct FnC<'a> {
    m: &'a Module,
    lx: Lx,
    vals: FxMap<&'static str, u32>,
    blocks: FxMap<&'static str, u32>,
    nslots: u32,
    consts: Vec<u64>,
    cmap: FxMap<u64, Opnd>,
    code: Vec<I>,
    frame: u32,
    cur: &'static str,
    phis: Vec<Phi>,
    /// (instruction index, which target, source block, target block)
    fix: Vec<(usize, usize, &'static str, &'static str)>,
    name: &'static str,
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

impl<'a> FnC<'a> {
    fn k(&mut self, v: u64) -> Opnd {
        if let Some(&o) = self.cmap.get(&v) {
            return o;
        }
        let o = !(self.consts.len() as i32);
        self.consts.push(v);
        self.cmap.insert(v, o);
        o
    }
    fn slot(&mut self, n: &'static str, cnt: usize) -> u32 {
        if let Some(&s) = self.vals.get(n) {
            return s;
        }
        let s = self.nslots;
        self.nslots += cnt as u32;
        self.vals.insert(n, s);
        s
    }
    fn tmp(&mut self, cnt: usize) -> u32 {
        let s = self.nslots;
        self.nslots += cnt as u32;
        s
    }
    /// parse a value of type ty
    fn val(&mut self, ty: &Ty) -> Vec<Opnd> {
        let n = ty.nslots();
        match self.lx.peek() {
            T::Local(name) => {
                self.lx.next();
                let s = self.slot(name, n);
                (0..n).map(|i| (s as usize + i) as Opnd).collect()
            }
            T::Word("zeroinitializer") | T::Word("undef") | T::Word("poison") | T::Word("null") | T::Word("none") => {
                self.lx.next();
                let z = self.k(0);
                vec![z; n]
            }
            T::Word("splat") => {
                self.lx.next();
                self.lx.expect(b'(');
                let t = self.m.ty(&mut self.lx);
                let v = self.m.const_scalar(&mut self.lx, &t);
                self.lx.expect(b')');
                let z = self.k(v as u64);
                vec![z; n]
            }
            T::P(b'<') | T::P(b'{') | T::P(b'[') | T::CStr(_) if matches!(ty, Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..)) => {
                if let T::CStr(s) = self.lx.peek() {
                    self.lx.next();
                    return unescape(s).iter().map(|&b| self.k(b as u64)).collect();
                }
                let mut out = vec![];
                if matches!(ty, Ty::Struct(_, true)) {
                    self.lx.expect(b'<');
                }
                self.lx.next();
                loop {
                    match self.lx.peek() {
                        T::P(b'}') | T::P(b']') | T::P(b'>') => break,
                        T::P(b',') => {
                            self.lx.next();
                        }
                        _ => {
                            let t = self.m.ty(&mut self.lx);
                            out.extend(self.val(&t));
                        }
                    }
                }
                self.lx.next();
                if matches!(ty, Ty::Struct(_, true)) {
                    self.lx.expect(b'>');
                }
                assert_eq!(out.len(), n);
                out
            }
            _ => {
                let v = self.m.const_scalar(&mut self.lx, ty);
                if n == 2 {
                    let a = self.k(v as u64);
                    let b = self.k((v >> 64) as u64);
                    vec![a, b]
                } else {
                    let a = self.k(v as u64);
                    vec![a]
                }
            }
        }
    }
    fn tyval(&mut self) -> (Ty, Vec<Opnd>) {
        let t = self.m.ty(&mut self.lx);
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    /// parameter attributes between a type and a value
    fn skip_attrs(&mut self) {
        loop {
            match self.lx.peek() {
                T::Word("null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "sub" | "add" | "xor" | "mul" | "asm") => return,
                T::Word(w) if w.starts_with("u0x") || w.starts_with("f0x") => return,
                T::Word("align") => {
                    self.lx.next();
                    if self.lx.peek() == T::P(b'(') {
                        self.lx.skip_parens();
                    } else {
                        self.lx.next();
                    }
                }
                T::Word(_) => {
                    self.lx.next();
                    if self.lx.peek() == T::P(b'(') {
                        self.lx.skip_parens();
                    }
                }
                T::Str(_) => {
                    self.lx.next();
                    if self.lx.eat(b'=') {
                        self.lx.next();
                    }
                }
                T::Meta => {
                    self.lx.next();
                }
                _ => return,
            }
        }
    }
    fn words(&mut self, ws: &[&str]) {
        while let T::Word(w) = self.lx.peek() {
            if ws.contains(&w) {
                self.lx.next();
            } else {
                break;
            }
        }
    }
    fn emit(&mut self, i: I) {
        self.code.push(i);
    }
    fn movs(&mut self, d: u32, v: &[Opnd]) {
        for (i, &a) in v.iter().enumerate() {
            self.emit(I::Mov { d: d + i as u32, a });
        }
    }

    fn run(&mut self) -> u32 {
        // header
        loop {
            match self.lx.next() {
                T::Global(_) => break,
                T::P(b'(') => {
                    // attribute with parens e.g. range(...)
                    let mut d = 1;
                    while d > 0 {
                        match self.lx.next() {
                            T::P(b'(') => d += 1,
                            T::P(b')') => d -= 1,
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        self.lx.expect(b'(');
        let mut unnamed = 0u32;
        let mut nparams = 0u32;
        while self.lx.peek() != T::P(b')') {
            if self.lx.eat(b',') {
                continue;
            }
            if self.lx.eat(b'.') {
                continue;
            }
            let t = self.m.ty(&mut self.lx);
            let w = self.lx.peek();
            if let T::Word(w) = w {
                if w.starts_with("...") {
                    self.lx.next();
                    continue;
                }
            }
            self.skip_attrs();
            let n = match self.lx.peek() {
                T::Local(n) => {
                    self.lx.next();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    n
                }
                _ => {
                    let n = leak(unnamed.to_string());
                    unnamed += 1;
                    n
                }
            };
            self.slot(n, t.nslots());
            nparams += t.nslots() as u32;
        }
        self.lx.skip_line();
        self.lx.next(); // NL
        self.cur = leak(unnamed.to_string());
        let mut first = true;
        loop {
            // label?
            let save = self.lx.clone();
            let t = self.lx.next();
            match t {
                T::NL => continue,
                T::P(b'}') => break,
                T::Eof => panic!("eof in function"),
                T::Word(n) | T::Num(n) | T::Str(n) if self.lx.peek() == T::P(b':') => {
                    self.lx.next();
                    self.cur = n;
                    self.blocks.insert(n, self.code.len() as u32);
                    self.lx.skip_line();
                    first = false;
                    continue;
                }
                _ => {}
            }
            if first {
                self.blocks.insert(self.cur, 0);
                first = false;
            }
            self.lx = save;
            self.inst();
            self.lx.skip_line();
        }
        // edges
        let fix = std::mem::take(&mut self.fix);
        let mut edges: FxMap<(&'static str, &'static str), u32> = FxMap::default();
        for (ci, which, from, to) in fix {
            let tgt = if let Some(&e) = edges.get(&(from, to)) {
                e
            } else {
                let base = *self.blocks.get(to).unwrap_or_else(|| panic!("block {to} in {}", self.name));
                let mut mv: Vec<(u32, Opnd)> = vec![];
                for ph in &self.phis {
                    if ph.block == to {
                        let inc = ph.inc.iter().find(|x| x.1 == from).unwrap_or_else(|| panic!("phi edge {from}->{to} in {}", self.name));
                        for k in 0..ph.n {
                            mv.push((ph.d + k as u32, inc.0[k]));
                        }
                    }
                }
                mv.retain(|(d, a)| *d as i32 != *a);
                let e = if mv.is_empty() {
                    base
                } else {
                    let pc = self.code.len() as u32;
                    let conflict = mv.iter().enumerate().any(|(i, m)| m.1 >= 0 && mv[..i].iter().any(|x| x.0 as i32 == m.1));
                    if conflict {
                        let t0 = self.tmp(mv.len());
                        for (i, m) in mv.iter().enumerate() {
                            self.emit(I::Mov { d: t0 + i as u32, a: m.1 });
                        }
                        for (i, m) in mv.iter().enumerate() {
                            self.emit(I::Mov { d: m.0, a: (t0 + i as u32) as Opnd });
                        }
                    } else {
                        for m in &mv {
                            self.emit(I::Mov { d: m.0, a: m.1 });
                        }
                    }
                    self.emit(I::Br { t: base });
                    pc
                };
                edges.insert((from, to), e);
                e
            };
            match &mut self.code[ci] {
                I::Br { t } => *t = tgt,
                I::CondBr { t, f, .. } => {
                    if which == 0 {
                        *t = tgt
                    } else {
                        *f = tgt
                    }
                }
                I::Switch { cases, def, .. } => {
                    if which == 0 {
                        *def = tgt
                    } else {
                        cases[which - 1].1 = tgt
                    }
                }
                _ => panic!(),
            }
        }
        nparams
    }

    fn label(&mut self) -> &'static str {
        self.lx.next_nnl(); // 'label'
        match self.lx.next_nnl() {
            T::Local(n) => n,
            t => panic!("label {t:?}"),
        }
    }

    fn inst(&mut self) {
        let at = self.lx.p;
        let mut res: Option<&'static str> = None;
        let mut t = self.lx.next_nnl();
        if let T::Local(n) = t {
            res = Some(n);
            self.lx.expect(b'=');
            t = self.lx.next();
        }
        let T::Word(op) = t else { panic!("instruction {t:?}: {}", self.lx.ctx(at)) };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.words(&["nuw", "nsw", "exact", "disjoint", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let (ty, a) = self.tyval();
                self.lx.expect(b',');
                let b = self.val(&ty);
                let bop = match op {
                    "add" => BOp::Add,
                    "sub" => BOp::Sub,
                    "mul" => BOp::Mul,
                    "udiv" => BOp::UDiv,
                    "sdiv" => BOp::SDiv,
                    "urem" => BOp::URem,
                    "srem" => BOp::SRem,
                    "and" => BOp::And,
                    "or" => BOp::Or,
                    "xor" => BOp::Xor,
                    "shl" => BOp::Shl,
                    "lshr" => BOp::LShr,
                    "ashr" => BOp::AShr,
                    "fadd" => BOp::FAdd,
                    "fsub" => BOp::FSub,
                    "fmul" => BOp::FMul,
                    "fdiv" => BOp::FDiv,
                    _ => BOp::FRem,
                };
                let d = self.slot(res.unwrap(), ty.nslots());
                if let Ty::Int(w) = ty {
                    if w > 64 {
                        self.emit(I::BinW { op: bop, w: w as u8, d, a: [a[0], a[1]], b: [b[0], b[1]] });
                        return;
                    }
                }
                let ew = match &ty {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                } as u8;
                for i in 0..a.len() {
                    self.emit(I::Bin { op: bop, w: ew, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "fneg" => {
                self.words(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let (ty, a) = self.tyval();
                let d = self.slot(res.unwrap(), 1);
                self.emit(I::FNeg { d, a: a[0], w: ty.bits() as u8 });
            }
            "icmp" => {
                self.words(&["samesign"]);
                let T::Word(p) = self.lx.next() else { panic!() };
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {p}"),
                };
                let (ty, a) = self.tyval();
                self.lx.expect(b',');
                let b = self.val(&ty);
                if let Ty::Int(w) = ty {
                    if w > 64 {
                        let d = self.slot(res.unwrap(), 1);
                        self.emit(I::ICmpW { p, w: w as u8, d, a: [a[0], a[1]], b: [b[0], b[1]] });
                        return;
                    }
                }
                let ew = match &ty {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                } as u8;
                let d = self.slot(res.unwrap(), a.len());
                for i in 0..a.len() {
                    self.emit(I::ICmp { p, w: ew, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "fcmp" => {
                self.words(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let T::Word(p) = self.lx.next() else { panic!() };
                // bit 0 eq, bit 1 gt, bit 2 lt, bit 3 unordered
                let p = match p {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let (ty, a) = self.tyval();
                self.lx.expect(b',');
                let b = self.val(&ty);
                let ew = match &ty {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                } as u8;
                let d = self.slot(res.unwrap(), a.len());
                for i in 0..a.len() {
                    self.emit(I::FCmp { p, w: ew, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "select" => {
                self.words(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let (_, c) = self.tyval();
                self.lx.expect(b',');
                let (ty, a) = self.tyval();
                self.lx.expect(b',');
                let (_, b) = self.tyval();
                let lv = ty.leaves();
                let d = self.slot(res.unwrap(), a.len());
                for i in 0..a.len() {
                    let cc = if c.len() > 1 { c[i] } else { c[0] };
                    self.emit(I::Sel { w: lv[i].1, d: d + i as u32, c: cc, a: a[i], b: b[i] });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                self.words(&["nneg", "nuw", "nsw", "fast"]);
                let (from, a) = self.tyval();
                assert!(self.lx.eat_word("to"));
                let to = self.m.ty(&mut self.lx);
                let d = self.slot(res.unwrap(), to.nslots());
                if op == "bitcast" {
                    let aw: Vec<u8> = from.leaves().iter().map(|x| x.1).collect();
                    let dw: Vec<u8> = to.leaves().iter().map(|x| x.1).collect();
                    if aw == dw {
                        self.movs(d, &a);
                    } else {
                        self.emit(I::Bits { d, dw: dw.into(), a: a.into(), aw: aw.into() });
                    }
                    return;
                }
                let (fs, ts) = match (&from, &to) {
                    (Ty::Vec(_, f), Ty::Vec(_, t)) => ((**f).clone(), (**t).clone()),
                    _ => (from.clone(), to.clone()),
                };
                let (fw, tw) = (fs.bits(), ts.bits());
                if fw > 64 || tw > 64 {
                    match op {
                        "zext" => {
                            if fw < 64 {
                                self.emit(I::Zext { d, a: a[0], from: fw as u8, to: 64 });
                            } else {
                                self.emit(I::Mov { d, a: a[0] });
                            }
                            let hi = if fw > 64 { a[1] } else { self.k(0) };
                            if fw > 64 {
                                self.emit(I::Zext { d: d + 1, a: hi, from: (fw - 64) as u8, to: (tw - 64) as u8 });
                            } else {
                                self.emit(I::Mov { d: d + 1, a: hi });
                            }
                        }
                        "sext" => {
                            assert!(fw <= 64);
                            self.emit(I::Sext { d, a: a[0], from: fw as u8, to: 64 });
                            self.emit(I::SignFill { d: d + 1, a: a[0], from: fw as u8, to: (tw - 64) as u8 });
                        }
                        "trunc" => {
                            if tw > 64 {
                                self.emit(I::Mov { d, a: a[0] });
                                self.emit(I::Trunc { d: d + 1, a: a[1], w: (tw - 64) as u8 });
                            } else {
                                self.emit(I::Trunc { d, a: a[0], w: tw as u8 });
                            }
                        }
                        _ => self.emit(I::Bad { msg: format!("{op} {fw}->{tw}").into() }),
                    }
                    return;
                }
                let (fw, tw) = (fw as u8, tw as u8);
                for i in 0..a.len() {
                    let d = d + i as u32;
                    let a = a[i];
                    let ins = match op {
                        "zext" => I::Zext { d, a, from: fw, to: tw },
                        "sext" => I::Sext { d, a, from: fw, to: tw },
                        "trunc" => I::Trunc { d, a, w: tw },
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                            if tw < fw {
                                I::Trunc { d, a, w: tw }
                            } else {
                                I::Zext { d, a, from: fw, to: tw }
                            }
                        }
                        "fptoui" => I::F2I { d, a, from: fw, to: tw, signed: false },
                        "fptosi" => I::F2I { d, a, from: fw, to: tw, signed: true },
                        "uitofp" => I::I2F { d, a, from: fw, to: tw, signed: false },
                        "sitofp" => I::I2F { d, a, from: fw, to: tw, signed: true },
                        _ => I::F2F { d, a, from: fw, to: tw },
                    };
                    self.emit(ins);
                }
            }
            "freeze" => {
                let (ty, a) = self.tyval();
                let d = self.slot(res.unwrap(), ty.nslots());
                self.movs(d, &a);
            }
            "load" => {
                self.words(&["atomic", "volatile"]);
                let ty = self.m.ty(&mut self.lx);
                self.lx.expect(b',');
                let (_, a) = self.tyval();
                let lv = ty.leaves();
                let d = self.slot(res.unwrap(), lv.len());
                let packed = lv.iter().any(|l| l.0 == u32::MAX);
                if packed {
                    // vector of sub-byte elements
                    let bits: u32 = lv.iter().map(|l| l.1 as u32).sum();
                    assert!(bits <= 64);
                    let t = self.tmp(1);
                    self.emit(I::Load { d: t, a: a[0], off: 0, w: bits as u8 });
                    self.emit(I::Bits { d, dw: lv.iter().map(|l| l.1).collect(), a: Box::new([t as i32]), aw: Box::new([bits as u8]) });
                    return;
                }
                // the address register may be overwritten only by the last leaf
                for (i, l) in lv.iter().enumerate() {
                    self.emit(I::Load { d: d + i as u32, a: a[0], off: l.0 as i32, w: l.1 });
                }
            }
            "store" => {
                self.words(&["atomic", "volatile"]);
                let (ty, v) = self.tyval();
                self.lx.expect(b',');
                let (_, a) = self.tyval();
                let lv = ty.leaves();
                if lv.iter().any(|l| l.0 == u32::MAX) {
                    let bits: u32 = lv.iter().map(|l| l.1 as u32).sum();
                    assert!(bits <= 64);
                    let t = self.tmp(1);
                    self.emit(I::Bits { d: t, dw: Box::new([bits as u8]), a: v.into(), aw: lv.iter().map(|l| l.1).collect() });
                    self.emit(I::Store { v: t as i32, a: a[0], off: 0, w: bits as u8 });
                    return;
                }
                for (i, l) in lv.iter().enumerate() {
                    self.emit(I::Store { v: v[i], a: a[0], off: l.0 as i32, w: l.1 });
                }
            }
            "getelementptr" => {
                self.words(&["inbounds", "nuw", "nusw"]);
                let ty = self.m.ty(&mut self.lx);
                self.lx.expect(b',');
                let (_, base) = self.tyval();
                let mut off = 0i64;
                let mut idx: Vec<(Opnd, u8, i64)> = vec![];
                let mut cur = ty;
                let mut first = true;
                while self.lx.eat(b',') {
                    if let T::Meta = self.lx.peek() {
                        break;
                    }
                    let (it, iv) = self.tyval();
                    let iw = it.bits() as u8;
                    let kv = if iv[0] < 0 {
                        Some(crate::expr::sext128(self.consts[!iv[0] as usize] as u128, iw) as i64)
                    } else {
                        None
                    };
                    if first {
                        let s = cur.size() as i64;
                        match kv {
                            Some(k) => off += k * s,
                            None => idx.push((iv[0], iw, s)),
                        }
                        first = false;
                    } else {
                        match kv {
                            Some(k) => {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.elem(k as usize).1;
                            }
                            None => {
                                let e = match &cur {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                    _ => panic!("gep"),
                                };
                                idx.push((iv[0], iw, e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                }
                let d = self.slot(res.unwrap(), 1);
                let a = base[0];
                let ins = match idx.len() {
                    0 => I::GepC { d, a, off },
                    1 => I::Gep1 { d, a, off, i: idx[0].0, iw: idx[0].1, s: idx[0].2 },
                    _ => I::Gep { d, a, off, idx: idx.into() },
                };
                self.emit(ins);
            }
            "alloca" => {
                self.words(&["inalloca", "swifterror"]);
                let ty = self.m.ty(&mut self.lx);
                let mut n: Option<Opnd> = None;
                let mut align = ty.align();
                while self.lx.eat(b',') {
                    match self.lx.peek() {
                        T::Word("align") => {
                            self.lx.next();
                            let T::Num(s) = self.lx.next() else { panic!() };
                            align = s.parse().unwrap();
                        }
                        T::Word("addrspace") => {
                            self.lx.next();
                            self.lx.skip_parens();
                        }
                        T::Meta => break,
                        _ => n = Some(self.tyval().1[0]),
                    }
                }
                let d = self.slot(res.unwrap(), 1);
                let cnt = match n {
                    None => Some(1),
                    Some(o) if o < 0 => Some(self.consts[!o as usize]),
                    _ => None,
                };
                match cnt {
                    Some(c) => {
                        let al = align.max(1) as u32;
                        self.frame = self.frame.div_ceil(al) * al;
                        let off = self.frame;
                        self.frame += (ty.size() * c) as u32;
                        self.emit(I::Alloca { d, off });
                    }
                    None => self.emit(I::AllocaDyn { d, n: n.unwrap(), size: ty.size(), align }),
                }
            }
            "phi" => {
                self.words(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let ty = self.m.ty(&mut self.lx);
                let n = ty.nslots();
                let d = self.slot(res.unwrap(), n);
                let mut inc = vec![];
                loop {
                    self.lx.expect(b'[');
                    let v = self.val(&ty);
                    self.lx.expect(b',');
                    let T::Local(b) = self.lx.next() else { panic!() };
                    self.lx.expect(b']');
                    inc.push((v, b));
                    if self.lx.peek() != T::P(b',') {
                        break;
                    }
                    let save = self.lx.clone();
                    self.lx.next();
                    if self.lx.peek() != T::P(b'[') {
                        self.lx = save;
                        break;
                    }
                }
                self.phis.push(Phi { block: self.cur, d, n, inc });
            }
            "br" => {
                if self.lx.peek() == T::Word("label") {
                    let l = self.label();
                    self.fix.push((self.code.len(), 0, self.cur, l));
                    self.emit(I::Br { t: 0 });
                } else {
                    let (_, c) = self.tyval();
                    self.lx.expect(b',');
                    let a = self.label();
                    self.lx.expect(b',');
                    let b = self.label();
                    self.fix.push((self.code.len(), 0, self.cur, a));
                    self.fix.push((self.code.len(), 1, self.cur, b));
                    self.emit(I::CondBr { c: c[0], t: 0, f: 0 });
                }
            }
            "switch" => {
                let (ty, v) = self.tyval();
                self.lx.expect(b',');
                let def = self.label();
                self.lx.expect(b'[');
                let ci = self.code.len();
                let mut cases = vec![];
                let mut wcases: Vec<[Opnd; 2]> = vec![];
                let wide = ty.bits() > 64;
                self.fix.push((ci, 0, self.cur, def));
                loop {
                    let t = self.lx.peek();
                    match t {
                        T::NL => {
                            self.lx.next();
                        }
                        T::P(b']') => {
                            self.lx.next();
                            break;
                        }
                        _ => {
                            let (_, cv) = self.tyval();
                            self.lx.expect(b',');
                            let l = self.label();
                            self.fix.push((ci, cases.len() + 1, self.cur, l));
                            if wide {
                                wcases.push([cv[0], cv[1]]);
                                cases.push((cases.len() as u64, 0));
                            } else {
                                cases.push((self.consts[!cv[0] as usize], 0));
                            }
                        }
                    }
                }
                if wide {
                    // select the number of the case, switch on that
                    let mut key = self.k(cases.len() as u64);
                    for (i, c) in wcases.into_iter().enumerate() {
                        let e = self.tmp(1);
                        self.emit(I::ICmpW { p: Pred::Eq, w: ty.bits() as u8, d: e, a: [v[0], v[1]], b: c });
                        let d = self.tmp(1);
                        let k = self.k(i as u64);
                        self.emit(I::Sel { w: 64, d, c: e as Opnd, a: k, b: key });
                        key = d as Opnd;
                    }
                    let at = self.code.len();
                    for f in self.fix.iter_mut().filter(|f| f.0 == ci) {
                        f.0 = at;
                    }
                    self.emit(I::Switch { v: key, w: 64, cases: cases.into(), def: 0 });
                } else {
                    self.emit(I::Switch { v: v[0], w: ty.bits() as u8, cases: cases.into(), def: 0 });
                }
            }
            "ret" => {
                if self.lx.peek() == T::Word("void") {
                    self.emit(I::Ret { v: Box::new([]) });
                } else {
                    let (_, v) = self.tyval();
                    self.emit(I::Ret { v: v.into() });
                }
            }
            "unreachable" => self.emit(I::Unreachable),
            "resume" | "landingpad" | "cleanuppad" | "catchswitch" => {
                if op == "landingpad" {
                    let ty = self.m.ty(&mut self.lx);
                    let _ = self.slot(res.unwrap(), ty.nslots());
                    // clauses may be on following lines
                    loop {
                        let save = self.lx.clone();
                        self.lx.skip_line();
                        self.lx.next();
                        match self.lx.peek() {
                            T::Word("catch") | T::Word("cleanup") | T::Word("filter") => continue,
                            _ => {
                                self.lx = save;
                                break;
                            }
                        }
                    }
                }
                self.emit(I::Bad { msg: op.into() });
            }
            "fence" => {}
            "atomicrmw" => {
                self.words(&["volatile"]);
                let T::Word(o) = self.lx.next() else { panic!() };
                let o = match o {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "max" => 6,
                    "min" => 7,
                    "umax" => 8,
                    "umin" => 9,
                    "nand" => 10,
                    _ => panic!("atomicrmw {o}"),
                };
                let (_, a) = self.tyval();
                self.lx.expect(b',');
                let (ty, v) = self.tyval();
                let d = self.slot(res.unwrap(), 1);
                self.emit(I::Rmw { op: o, w: ty.bits() as u8, d, a: a[0], v: v[0] });
            }
            "cmpxchg" => {
                self.words(&["weak", "volatile"]);
                let (_, a) = self.tyval();
                self.lx.expect(b',');
                let (ty, c) = self.tyval();
                self.lx.expect(b',');
                let (_, n) = self.tyval();
                let d = self.slot(res.unwrap(), ty.nslots() + 1);
                if ty.bits() > 64 {
                    self.emit(I::CmpXchgW { d, a: a[0], cmp: [c[0], c[1]], new: [n[0], n[1]] });
                } else {
                    self.emit(I::CmpXchg { w: ty.bits() as u8, d, a: a[0], cmp: c[0], new: n[0] });
                }
            }
            "extractvalue" => {
                let (ty, v) = self.tyval();
                let mut cur = ty;
                let mut o = 0;
                while self.lx.eat(b',') {
                    let T::Num(s) = self.lx.peek() else { break };
                    self.lx.next();
                    let (k, t) = cur.elem(s.parse().unwrap());
                    o += k;
                    cur = t;
                }
                let n = cur.nslots();
                let d = self.slot(res.unwrap(), n);
                self.movs(d, &v[o..o + n].to_vec());
            }
            "insertvalue" => {
                let (ty, mut v) = self.tyval();
                self.lx.expect(b',');
                let (_, x) = self.tyval();
                let mut cur = ty.clone();
                let mut o = 0;
                while self.lx.eat(b',') {
                    let T::Num(s) = self.lx.peek() else { break };
                    self.lx.next();
                    let (k, t) = cur.elem(s.parse().unwrap());
                    o += k;
                    cur = t;
                }
                for (i, y) in x.iter().enumerate() {
                    v[o + i] = *y;
                }
                let d = self.slot(res.unwrap(), v.len());
                self.movs(d, &v);
            }
            "extractelement" => {
                let (ty, v) = self.tyval();
                self.lx.expect(b',');
                let (_, i) = self.tyval();
                let d = self.slot(res.unwrap(), 1);
                let _ = ty;
                if i[0] < 0 {
                    let k = self.consts[!i[0] as usize] as usize;
                    let a = v[k];
                    self.emit(I::Mov { d, a });
                } else {
                    let b = self.tmp(v.len());
                    self.movs(b, &v);
                    self.emit(I::ExtractDyn { d, base: b, n: v.len() as u32, i: i[0] });
                }
            }
            "insertelement" => {
                let (_, mut v) = self.tyval();
                self.lx.expect(b',');
                let (_, x) = self.tyval();
                self.lx.expect(b',');
                let (_, i) = self.tyval();
                let d = self.slot(res.unwrap(), v.len());
                if i[0] < 0 {
                    v[self.consts[!i[0] as usize] as usize] = x[0];
                    self.movs(d, &v);
                } else {
                    self.emit(I::Bad { msg: "insertelement dyn".into() });
                }
            }
            "shufflevector" => {
                let (_, mut a) = self.tyval();
                self.lx.expect(b',');
                let (_, b) = self.tyval();
                self.lx.expect(b',');
                let (mt, m) = self.tyval();
                a.extend(b);
                let d = self.slot(res.unwrap(), mt.nslots());
                let v: Vec<Opnd> = m.iter().map(|&k| a[(self.consts[!k as usize] as u32) as usize % a.len()]).collect();
                self.movs(d, &v);
            }
            "tail" | "musttail" | "notail" => {
                self.lx.next(); // call
                self.call(res, false);
            }
            "call" => self.call(res, false),
            "invoke" => self.call(res, true),
            _ => panic!("opcode {op}: {}", self.lx.ctx(at)),
        }
    }

    fn call(&mut self, res: Option<&'static str>, invoke: bool) {
        let at = self.lx.p;
        // calling convention, return attributes
        loop {
            match self.lx.peek() {
                T::Word("void" | "ptr" | "float" | "double") => break,
                T::Word(w) if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => break,
                T::P(b'<' | b'{' | b'[') | T::Local(_) => break,
                T::Word("align") => {
                    self.lx.next();
                    if self.lx.peek() == T::P(b'(') {
                        self.lx.skip_parens();
                    } else {
                        self.lx.next();
                    }
                }
                T::Word(_) => {
                    self.lx.next();
                    if self.lx.peek() == T::P(b'(') {
                        self.lx.skip_parens();
                    }
                }
                t => panic!("call {t:?}: {}", self.lx.ctx(at)),
            }
        }
        let rt = self.m.ty(&mut self.lx);
        // callee
        enum Callee {
            F(&'static str),
            P(Opnd),
            Asm(&'static str),
        }
        let callee = match self.lx.next() {
            T::Global(n) => Callee::F(n),
            T::Local(n) => {
                let s = self.slot(n, 1);
                Callee::P(s as Opnd)
            }
            T::Word("asm") => {
                self.words(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                let T::Str(s) = self.lx.next() else { panic!("asm {}", self.lx.ctx(at)) };
                self.lx.expect(b',');
                self.lx.next();
                Callee::Asm(s)
            }
            T::Word("inttoptr") => {
                self.emit(I::Bad { msg: "call inttoptr".into() });
                return;
            }
            t => panic!("callee {t:?}: {}", self.lx.ctx(at)),
        };
        if let Callee::F(n) = callee {
            if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.donothing") {
                return;
            }
        }
        self.lx.expect(b'(');
        let mut args: Vec<Vec<Opnd>> = vec![];
        let mut atys: Vec<Ty> = vec![];
        loop {
            match self.lx.peek() {
                T::P(b')') => {
                    self.lx.next();
                    break;
                }
                T::P(b',') => {
                    self.lx.next();
                }
                _ => {
                    let t = self.m.ty(&mut self.lx);
                    if t == Ty::Other {
                        // metadata operand
                        self.lx.next();
                        continue;
                    }
                    self.skip_attrs();
                    let v = self.val(&t);
                    atys.push(t);
                    args.push(v);
                }
            }
        }
        let nd = rt.nslots();
        let d = match res {
            Some(n) => self.slot(n, nd),
            None => if nd > 0 { self.tmp(nd) } else { 0 },
        };
        let mut to: Option<&'static str> = None;
        if invoke {
            // attributes, then: to label %x unwind label %y
            loop {
                match self.lx.next() {
                    T::Word("to") => break,
                    T::Eof => panic!(),
                    _ => {}
                }
            }
            to = Some(self.label());
        }
        match callee {
            Callee::Asm(s) => {
                if s.is_empty() {
                } else if s.starts_with("/*") && s.ends_with("*/") && args.len() == 1 && args[0].len() == nd {
                    // a comment: the value passes through
                    for i in 0..nd {
                        self.emit(I::Mov { d: d + i as u32, a: args[0][i] });
                    }
                } else if s.contains("cpuid") {
                    let z = self.k(0);
                    for i in 0..nd {
                        self.emit(I::Mov { d: d + i as u32, a: z });
                    }
                } else {
                    self.emit(I::Bad { msg: format!("asm {s}").into() });
                }
            }
            Callee::P(fp) => {
                let args: Vec<Opnd> = args.concat();
                self.emit(I::CallInd { fp, args: args.into(), d, nd: nd as u32 });
            }
            Callee::F(n) => {
                if n.starts_with("llvm.") {
                    self.intrinsic(n, &rt, &atys, args, d);
                } else {
                    let mut n = n;
                    while let Some(a) = self.m.aliases.get(n) {
                        n = a;
                    }
                    let f = *self.m.fnames.get(n).unwrap_or_else(|| panic!("function {n}"));
                    let args: Vec<Opnd> = args.concat();
                    self.emit(I::Call { f, args: args.into(), d, nd: nd as u32 });
                }
            }
        }
        if let Some(l) = to {
            self.fix.push((self.code.len(), 0, self.cur, l));
            self.emit(I::Br { t: 0 });
        }
    }

    fn intrinsic(&mut self, n: &'static str, rt: &Ty, atys: &[Ty], args: Vec<Vec<Opnd>>, d: u32) {
        let base = &n[5..];
        let (ew, cnt) = match rt {
            Ty::Vec(k, e) => (e.bits() as u8, *k as usize),
            Ty::Int(w) => (*w as u8, 1),
            Ty::Double => (64, 1),
            Ty::Float => (32, 1),
            Ty::Ptr => (64, 1),
            _ => (0, 1),
        };
        let per = |c: &mut Self, k: In, na: usize| {
            if ew > 64 {
                c.emit(I::Bad { msg: n.into() });
                return;
            }
            for i in 0..cnt {
                let v: Vec<Opnd> = args[..na].iter().map(|a| a[i]).collect();
                c.emit(I::Intr { k, w: ew, args: v.into(), d: d + i as u32 });
            }
        };
        let p = |s: &str| base.starts_with(s);
        if p("memcpy") || p("memmove") {
            let a = vec![args[0][0], args[1][0], args[2][0]];
            self.emit(I::Intr { k: In::Memcpy, w: 64, args: a.into(), d });
        } else if p("memset") {
            let a = vec![args[0][0], args[1][0], args[2][0]];
            self.emit(I::Intr { k: In::Memset, w: 64, args: a.into(), d });
        } else if p("umax") {
            per(self, In::UMax, 2)
        } else if p("umin") {
            per(self, In::UMin, 2)
        } else if p("smax") {
            per(self, In::SMax, 2)
        } else if p("smin") {
            per(self, In::SMin, 2)
        } else if p("abs") {
            per(self, In::Abs, 1)
        } else if p("ctlz") {
            per(self, In::Ctlz, 1)
        } else if p("cttz") {
            per(self, In::Cttz, 1)
        } else if p("ctpop") {
            per(self, In::Ctpop, 1)
        } else if p("bswap") {
            per(self, In::Bswap, 1)
        } else if p("bitreverse") {
            per(self, In::Bitreverse, 1)
        } else if p("fshl") {
            per(self, In::Fshl, 3)
        } else if p("fshr") {
            per(self, In::Fshr, 3)
        } else if p("uadd.sat") {
            per(self, In::UAddSat, 2)
        } else if p("usub.sat") {
            per(self, In::USubSat, 2)
        } else if p("sadd.sat") {
            per(self, In::SAddSat, 2)
        } else if p("ssub.sat") {
            per(self, In::SSubSat, 2)
        } else if p("fabs") {
            per(self, In::FAbs, 1)
        } else if p("floor") {
            per(self, In::FUn(0), 1)
        } else if p("ceil") {
            per(self, In::FUn(1), 1)
        } else if p("trunc") {
            per(self, In::FUn(2), 1)
        } else if p("round") || p("rint") || p("nearbyint") {
            per(self, In::FUn(3), 1)
        } else if p("sqrt") {
            per(self, In::FUn(4), 1)
        } else if p("fptoui.sat") || p("fptosi.sat") {
            let fw = atys[0].bits() as u8;
            self.emit(I::F2I { d, a: args[0][0], from: fw, to: ew, signed: p("fptosi") });
        } else if p("uadd.with") || p("usub.with") || p("umul.with") || p("sadd.with") || p("ssub.with") || p("smul.with") {
            let w = atys[0].bits();
            if w > 64 {
                self.emit(I::Bad { msg: n.into() });
                return;
            }
            let k = match &base[..4] {
                "uadd" => In::UAddO,
                "usub" => In::USubO,
                "umul" => In::UMulO,
                "sadd" => In::SAddO,
                "ssub" => In::SSubO,
                _ => In::SMulO,
            };
            if let Ty::Struct(f, _) = rt {
                if !matches!(f[0], Ty::Int(_)) {
                    self.emit(I::Bad { msg: n.into() });
                    return;
                }
            }
            self.emit(I::Intr { k, w: w as u8, args: vec![args[0][0], args[1][0]].into(), d });
        } else if p("scmp") || p("ucmp") {
            let k = if p("scmp") { In::Scmp } else { In::Ucmp };
            let w = atys[0].bits();
            if cnt != 1 || w > 64 {
                self.emit(I::Bad { msg: n.into() });
                return;
            }
            // result width in the third operand
            let rw = self.k(ew as u64);
            self.emit(I::Intr { k, w: w as u8, args: vec![args[0][0], args[1][0], rw].into(), d });
        } else if p("x86.sse2.psad.bw") {
            for h in 0..2 {
                let mut v: Vec<Opnd> = args[0][h * 8..h * 8 + 8].to_vec();
                v.extend(&args[1][h * 8..h * 8 + 8]);
                self.emit(I::Intr { k: In::Psad, w: 64, args: v.into(), d: d + h as u32 });
            }
        } else if p("threadlocal.address") {
            self.emit(I::Intr { k: In::TlsAddr, w: 64, args: vec![args[0][0]].into(), d });
        } else if p("trap") || p("debugtrap") || p("ubsantrap") {
            self.emit(I::Intr { k: In::Trap, w: 0, args: Box::new([]), d });
        } else if p("is.constant") {
            let z = self.k(0);
            self.emit(I::Mov { d, a: z });
        } else if p("expect") || p("ssa.copy") || p("launder") || p("strip") {
            self.movs(d, &args[0]);
        } else if p("x86.xgetbv") {
            let z = self.k(0);
            self.emit(I::Mov { d, a: z });
        } else if p("objectsize") {
            let z = self.k(u64::MAX);
            self.emit(I::Mov { d, a: z });
        } else if p("vector.reduce.") {
            let op = match base {
                b if b.starts_with("vector.reduce.add") => 1,
                b if b.starts_with("vector.reduce.or") => 4,
                b if b.starts_with("vector.reduce.and") => 3,
                b if b.starts_with("vector.reduce.xor") => 5,
                b if b.starts_with("vector.reduce.umax") => 8,
                b if b.starts_with("vector.reduce.umin") => 9,
                b if b.starts_with("vector.reduce.mul") => 11,
                _ => {
                    self.emit(I::Bad { msg: n.into() });
                    return;
                }
            };
            self.emit(I::Intr { k: In::VReduce(op), w: ew, args: args[0].clone().into(), d });
        } else {
            self.emit(I::Bad { msg: n.into() });
        }
    }
}
