//! Copy-on-write byte-addressed memory with a symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

pub const PAGE: usize = 4096;
const L2: usize = 1024;
const L1: usize = 1024;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE],
    pub sym: Option<Box<[E; PAGE]>>,
    pub nsym: u32,
}

#[derive(Clone)]
struct Dir {
    p: Vec<Option<Rc<Page>>>,
}
#[derive(Clone)]
struct Root {
    d: Vec<Option<Rc<Dir>>>,
}

const TLB: usize = 64;

pub struct Mem {
    root: Rc<Root>,
    rt: [(u64, *const Page); TLB],
    wt: [(u64, *mut Page); TLB],
    pub pages: u64,
}

impl Clone for Mem {
    /// both copies must drop their write cache: pages are now shared
    fn clone(&self) -> Self {
        Mem { root: self.root.clone(), rt: [(u64::MAX, std::ptr::null()); TLB], wt: [(u64::MAX, std::ptr::null_mut()); TLB], pages: self.pages }
    }
}

impl Mem {
    pub fn new() -> Self {
        Mem {
            root: Rc::new(Root { d: vec![None; L1] }),
            rt: [(u64::MAX, std::ptr::null()); TLB],
            wt: [(u64::MAX, std::ptr::null_mut()); TLB],
            pages: 0,
        }
    }
    pub fn flush(&mut self) {
        self.rt = [(u64::MAX, std::ptr::null()); TLB];
        self.wt = [(u64::MAX, std::ptr::null_mut()); TLB];
    }
    pub fn map(&mut self, addr: u64, size: u64) {
        let a = addr / PAGE as u64;
        let b = (addr + size.max(1) - 1) / PAGE as u64;
        for pn in a..=b {
            let (i, j) = (pn as usize / L2, pn as usize % L2);
            assert!(i < L1);
            let root = Rc::make_mut(&mut self.root);
            let dir = root.d[i].get_or_insert_with(|| Rc::new(Dir { p: vec![None; L2] }));
            if dir.p[j].is_none() {
                Rc::make_mut(dir).p[j] = Some(Rc::new(Page { data: [0; PAGE], sym: None, nsym: 0 }));
                self.pages += 1;
            }
        }
        self.flush();
    }
    #[inline]
    pub fn rd(&mut self, addr: u64) -> Option<&Page> {
        let pn = addr >> 12;
        let e = self.rt[pn as usize % TLB];
        if e.0 == pn {
            return Some(unsafe { &*e.1 });
        }
        self.rd_slow(pn)
    }
    #[inline(never)]
    fn rd_slow(&mut self, pn: u64) -> Option<&Page> {
        let (i, j) = (pn as usize / L2, pn as usize % L2);
        if i >= L1 {
            return None;
        }
        let p = self.root.d[i].as_ref()?.p[j].as_ref()?;
        let ptr = Rc::as_ptr(p);
        self.rt[pn as usize % TLB] = (pn, ptr);
        Some(unsafe { &*ptr })
    }
    #[inline]
    pub fn wr(&mut self, addr: u64) -> Option<&mut Page> {
        let pn = addr >> 12;
        let e = self.wt[pn as usize % TLB];
        if e.0 == pn {
            return Some(unsafe { &mut *e.1 });
        }
        self.wr_slow(pn)
    }
    #[inline(never)]
    fn wr_slow(&mut self, pn: u64) -> Option<&mut Page> {
        let (i, j) = (pn as usize / L2, pn as usize % L2);
        if i >= L1 || self.root.d[i].is_none() {
            return None;
        }
        let root = Rc::make_mut(&mut self.root);
        let dir = Rc::make_mut(root.d[i].as_mut()?);
        let p = Rc::make_mut(dir.p[j].as_mut()?);
        let ptr = p as *mut Page;
        let k = pn as usize % TLB;
        self.wt[k] = (pn, ptr);
        self.rt[k] = (pn, ptr);
        Some(unsafe { &mut *ptr })
    }
    #[inline]
    pub fn read(&mut self, addr: u64, n: usize) -> Option<(u64, bool)> {
        // (little endian value, any symbolic byte)
        let o = addr as usize & (PAGE - 1);
        if o + n <= PAGE {
            let p = self.rd(addr)?;
            if p.nsym != 0 {
                let s = p.sym.as_ref().unwrap();
                if s[o..o + n].iter().any(|&e| e != 0) {
                    return Some((0, true));
                }
            }
            let v = unsafe {
                let q = p.data.as_ptr().add(o);
                match n {
                    1 => *q as u64,
                    2 => (q as *const u16).read_unaligned() as u64,
                    4 => (q as *const u32).read_unaligned() as u64,
                    8 => (q as *const u64).read_unaligned(),
                    _ => {
                        let mut v = 0u64;
                        for i in (0..n).rev() {
                            v = v << 8 | *q.add(i) as u64;
                        }
                        v
                    }
                }
            };
            Some((v, false))
        } else {
            let mut v = 0u64;
            for i in (0..n).rev() {
                let (b, s) = self.read(addr + i as u64, 1)?;
                if s {
                    return Some((0, true));
                }
                v = v << 8 | b;
            }
            Some((v, false))
        }
    }
    pub fn byte(&mut self, addr: u64) -> Option<(u8, E)> {
        let o = addr as usize & (PAGE - 1);
        let p = self.rd(addr)?;
        let e = if p.nsym != 0 { p.sym.as_ref().unwrap()[o] } else { 0 };
        Some((p.data[o], e))
    }
    #[inline]
    pub fn write(&mut self, addr: u64, n: usize, v: u64) -> Option<()> {
        let o = addr as usize & (PAGE - 1);
        if o + n <= PAGE {
            let p = self.wr(addr)?;
            if p.nsym != 0 {
                clear(p, o, n);
            }
            unsafe {
                let q = p.data.as_mut_ptr().add(o);
                match n {
                    1 => *q = v as u8,
                    2 => (q as *mut u16).write_unaligned(v as u16),
                    4 => (q as *mut u32).write_unaligned(v as u32),
                    8 => (q as *mut u64).write_unaligned(v),
                    _ => {
                        for i in 0..n {
                            *q.add(i) = (v >> (8 * i)) as u8;
                        }
                    }
                }
            }
            Some(())
        } else {
            for i in 0..n {
                self.write(addr + i as u64, 1, v >> (8 * i))?;
            }
            Some(())
        }
    }
    pub fn write_sym(&mut self, addr: u64, e: E) -> Option<()> {
        let o = addr as usize & (PAGE - 1);
        let p = self.wr(addr)?;
        let s = p.sym.get_or_insert_with(|| Box::new([0; PAGE]));
        if s[o] == 0 {
            p.nsym += 1;
        }
        s[o] = e;
        Some(())
    }
    pub fn fill(&mut self, mut addr: u64, mut n: u64, v: u8) -> Option<()> {
        while n > 0 {
            let o = addr as usize & (PAGE - 1);
            let k = (PAGE - o).min(n as usize);
            let p = self.wr(addr)?;
            if p.nsym != 0 {
                clear(p, o, k);
            }
            p.data[o..o + k].fill(v);
            addr += k as u64;
            n -= k as u64;
        }
        Some(())
    }
    /// memmove
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Option<()> {
        if n == 0 || dst == src {
            return Some(());
        }
        let mut buf = [0u8; PAGE];
        let mut sbuf: Vec<E> = vec![];
        let overlap = src < dst && dst < src + n;
        let mut done = 0u64;
        while done < n {
            // one chunk inside one source page and one destination page
            let (s, d, k);
            if !overlap {
                let s0 = src + done;
                let d0 = dst + done;
                let k0 = (n - done).min(PAGE as u64 - (s0 & 4095)).min(PAGE as u64 - (d0 & 4095));
                s = s0;
                d = d0;
                k = k0 as usize;
            } else {
                let se = src + n - done;
                let de = dst + n - done;
                let a = |e: u64| if e & 4095 == 0 { 4096 } else { e & 4095 };
                let k0 = (n - done).min(a(se)).min(a(de));
                s = se - k0;
                d = de - k0;
                k = k0 as usize;
            }
            let so = s as usize & 4095;
            let dof = d as usize & 4095;
            let sp = self.rd(s)?;
            buf[..k].copy_from_slice(&sp.data[so..so + k]);
            let mut any = false;
            if sp.nsym != 0 {
                let x = &sp.sym.as_ref().unwrap()[so..so + k];
                if x.iter().any(|&e| e != 0) {
                    any = true;
                    sbuf.clear();
                    sbuf.extend_from_slice(x);
                }
            }
            let dp = self.wr(d)?;
            if dp.nsym != 0 {
                clear(dp, dof, k);
            }
            dp.data[dof..dof + k].copy_from_slice(&buf[..k]);
            if any {
                let sy = dp.sym.get_or_insert_with(|| Box::new([0; PAGE]));
                let mut c = 0;
                for i in 0..k {
                    if sbuf[i] != 0 {
                        c += 1;
                    }
                    sy[dof + i] = sbuf[i];
                }
                dp.nsym += c;
            }
            done += k as u64;
        }
        Some(())
    }
}

fn clear(p: &mut Page, o: usize, n: usize) {
    if let Some(s) = p.sym.as_mut() {
        for e in s[o..o + n].iter_mut() {
            if *e != 0 {
                *e = 0;
                p.nsym -= 1;
            }
        }
        if p.nsym == 0 {
            p.sym = None;
        }
    }
}
