//! Stand-in for rayon-core: `join` runs its two halves one after the other, in a symbolic
//! order, and says symbolically whether they were stolen; the number of threads is symbolic.
//! All of rayon's own splitting and bridging code is the real one.
#![allow(missing_docs)]
extern "C" {
    fn __sym_u(bits: u32, tag: u32) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_conc(v: u64) -> u64;
    fn __sym_param(id: u32, default: u64) -> u64;
}
fn choose(n: u64, tag: u32) -> u64 {
    unsafe {
        let v = __sym_u(8, tag);
        __sym_assume(v < n);
        __sym_conc(v)
    }
}
static mut THREADS: usize = 0;

pub fn current_num_threads() -> usize {
    unsafe {
        if THREADS == 0 {
            THREADS = 1 + choose(__sym_param(8, 3), 9100) as usize;
        }
        THREADS
    }
}
pub fn max_num_threads() -> usize {
    64
}
pub fn current_thread_index() -> Option<usize> {
    None
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

static mut STOLEN: u64 = 0;

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    // the first half stays where it is; the second one may be stolen, and run first
    let how = unsafe {
        // at most so many halves are stolen
        if STOLEN < __sym_param(11, 1 << 20) {
            choose(__sym_param(9, 3), 9101)
        } else {
            0
        }
    };
    if how != 0 {
        unsafe { STOLEN += 1 };
    }
    if how == 1 {
        let rb = b(FnContext { migrated: true });
        let ra = a(FnContext { migrated: false });
        (ra, rb)
    } else {
        let ra = a(FnContext { migrated: how == 3 });
        let rb = b(FnContext { migrated: how != 0 });
        (ra, rb)
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

// ---- the rest of the interface, which parallel iterators do not use ----
macro_rules! unused {
    ($($T:ident)*) => { $( #[derive(Debug)] pub struct $T; )* };
}
unused!(ThreadBuilder ThreadPool ThreadPoolBuildError ThreadPoolBuilder ScopeFifo BroadcastContext);
/// A scope whose tasks run where they are spawned.
#[derive(Debug)]
pub struct Scope<'scope>(std::marker::PhantomData<&'scope mut &'scope ()>);
impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        body(self)
    }
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope(std::marker::PhantomData))
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    op(&Scope(std::marker::PhantomData))
}
#[derive(Debug)]
pub enum Yield {
    Executed,
    Idle,
}
macro_rules! stub {
    ($($f:ident)*) => { $( pub fn $f() { unimplemented!() } )* };
}
stub!(broadcast spawn_broadcast in_place_scope_fifo scope_fifo spawn spawn_fifo yield_local yield_now);
