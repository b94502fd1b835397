//! Harness primitives. Under the symbolic engine `sym` is a free variable;
//! natively it is the next value of the replay vector.
unsafe extern "C" {
    fn __sx_sym(lo: u64, hi: u64) -> u64;
    fn __sx_assume(c: u64);
    fn __sx_check(c: u64, p: *const u8, n: u64);
    fn __sx_fail(p: *const u8, n: u64) -> !;
    fn __sx_observe(v: u64);
    fn __sx_reach(l: u64);
    fn __sx_conc(v: u64) -> u64;
    fn __sx_note(p: *const u8, n: u64);
    fn __sx_native_begin(v: *const u64, n: usize, verbose: i32);
    fn __sx_native_digest() -> u64;
}
/// any value in lo..=hi
#[inline(always)]
pub fn sym(lo: u64, hi: u64) -> u64 {
    unsafe { __sx_sym(lo, hi) }
}
#[inline(always)]
pub fn any_u32() -> u32 {
    sym(0, u32::MAX as u64) as u32
}
#[inline(always)]
pub fn flag() -> bool {
    sym(0, 1) != 0
}
/// a symbolic choice, made concrete by forking
#[inline(always)]
pub fn pick(n: usize) -> usize {
    unsafe { __sx_conc(__sx_sym(0, n as u64 - 1)) as usize }
}
#[inline(always)]
pub fn range(lo: usize, hi: usize) -> usize {
    unsafe { __sx_conc(__sx_sym(lo as u64, hi as u64)) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sx_assume(c as u64) }
}
#[inline(always)]
pub fn check(c: bool, m: &str) {
    unsafe { __sx_check(c as u64, m.as_ptr(), m.len() as u64) }
}
#[inline(always)]
pub fn fail(m: &str) -> ! {
    unsafe { __sx_fail(m.as_ptr(), m.len() as u64) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { __sx_observe(v) }
}
#[inline(always)]
pub fn reach(l: u64) {
    unsafe { __sx_reach(l) }
}
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { __sx_conc(v) }
}
pub fn note(s: &str) {
    unsafe { __sx_note(s.as_ptr(), s.len() as u64) }
}
pub fn observe_str(s: &str) {
    let mut h = 0u64;
    for b in s.bytes() {
        h = h.rotate_left(5) ^ b as u64;
    }
    observe(h ^ ((s.len() as u64) << 48));
}
pub fn native_run2(i: u64, v: &[u64], verbose: i32) -> u64 {
    unsafe {
        __sx_native_begin(v.as_ptr(), v.len(), verbose);
        crate::sx_run(i);
        __sx_native_digest()
    }
}

// ---- environment shared by the engine and the native replay

/// the fake monotonic clock, and nanoseconds within the second
pub static mut CLOCK: u64 = 1_000;
pub static mut CLOCK_NS: u64 = 0;

#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    unsafe {
        // only the monotonic clock (1) moves: the wall clock stamps entities
        let (s, n) = if clk == 1 { (CLOCK, CLOCK_NS) } else { (1_000, 0) };
        (*ts)[0] = s as i64;
        (*ts)[1] = n as i64;
    }
    0
}
/// `s` may be symbolic
pub fn advance_s(s: u64) {
    unsafe {
        CLOCK += s;
    }
}
pub fn advance_ms(ms: u64) {
    unsafe {
        CLOCK_NS += ms * 1_000_000;
        CLOCK += CLOCK_NS / 1_000_000_000;
        CLOCK_NS %= 1_000_000_000;
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n {
        unsafe { *p.add(i) = 0x5a ^ (i as u8) };
    }
    n as isize
}
