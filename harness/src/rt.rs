//! Interface to the symbolic executor (and, natively, to the replay runtime).
extern "C" {
    fn __sym_u(bits: u32, tag: u32) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, id: u32);
    fn __sym_reach(id: u32);
    fn __sym_note(v: u64);
    fn __sym_live() -> u64;
    fn __sym_param(id: u32, default: u64) -> u64;
    fn __sym_conc(v: u64) -> u64;
    fn __sym_join_all();
    fn __sym_spawn(f: extern "C-unwind" fn(*mut u8), data: *mut u8);
}
extern "C-unwind" {
    fn __sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
    fn __sym_panic() -> !;
}

/// A fresh symbolic value of `bits` bits.
#[inline(never)]
pub fn sym(bits: u32, tag: u32) -> u64 {
    unsafe { __sym_u(bits, tag) }
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: u32) {
    unsafe { __sym_check(c, id) }
}
/// Reachability witness: the runner requires every declared id to be reached.
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
/// Records a value for conformance checking between engine and native runs.
pub fn note(v: u64) {
    unsafe { __sym_note(v) }
}
/// Number of live heap blocks.
pub fn live() -> u64 {
    unsafe { __sym_live() }
}
pub fn param(id: u32, default: u64) -> u64 {
    unsafe { __sym_param(id, default) }
}
/// Fork over all feasible values.
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_conc(v) }
}
/// A symbolic choice in 0..n, made concrete by forking.
#[inline(never)]
pub fn choose(n: u64, tag: u32) -> u64 {
    if n <= 1 {
        return 0;
    }
    let v = sym(8, tag);
    assume(v < n);
    conc(v)
}
/// A symbolic boolean, made concrete by forking.
pub fn flip(tag: u32) -> bool {
    conc(sym(1, tag)) == 1
}
pub fn boom() -> ! {
    unsafe { __sym_panic() }
}
pub fn join_all() {
    unsafe { __sym_join_all() }
}

extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
    let f = unsafe { (*(p as *mut Option<F>)).take().unwrap() };
    f()
}
/// Runs `f`; true if it panicked.
pub fn catch<F: FnOnce()>(f: F) -> bool {
    let mut o = Some(f);
    unsafe { __sym_try(tramp::<F>, &mut o as *mut Option<F> as *mut u8) }
}
/// Starts `f` as a logical thread; `f` must stay alive until join_all.
pub unsafe fn spawn<F: FnOnce()>(f: &mut Option<F>) {
    __sym_spawn(tramp::<F>, f as *mut Option<F> as *mut u8)
}
