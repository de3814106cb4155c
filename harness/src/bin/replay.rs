//! Runs one harness natively on concrete inputs: `replay ENTRY INPUTS`.
//!
//! INPUTS holds one `tag bits value` line per symbolic value and `P id value` lines for
//! parameters. Output: `NOTE v`, `REACH id`, and the verdict as the last line:
//! OK, CHECK id, PANIC message, ASSUME, HEAP message (exit 0, 10, 11, 12, 13).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};

// Set while this runtime runs: its own atomic accesses are not points of the code under test.
thread_local! {
    static RT: Cell<u32> = const { Cell::new(0) };
    static ME: Cell<usize> = const { Cell::new(0) };
}
struct Rt;
impl Rt {
    fn enter() -> Rt {
        RT.with(|r| r.set(r.get() + 1));
        Rt
    }
}
impl Drop for Rt {
    fn drop(&mut self) {
        RT.with(|r| r.set(r.get() - 1))
    }
}

// ---- checking allocator: size/alignment recorded, red zones, blocks poisoned when freed ----
struct Heap;
static LIVE: AtomicU64 = AtomicU64::new(0);
static COUNTING: AtomicBool = AtomicBool::new(false);
const RED: usize = 64;
const MAGIC: u64 = 0x5eed_b10c_ca11_ab1e;
const DEAD: u64 = 0xdead_b10c_dead_b10c;

fn heap_error(m: &str) -> ! {
    println!("HEAP {m}");
    std::process::exit(13)
}
/// Layout of the enclosing block and the offset of the user block, which is aligned to
/// exactly the requested alignment, never more.
fn outer(l: &Layout) -> (Layout, usize) {
    let a2 = l.align() * 2;
    let off = (RED + a2 - 1) / a2 * a2 + l.align();
    (Layout::from_size_align(off + l.size() + RED, a2).unwrap(), off)
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _rt = Rt::enter();
        if cfg!(miri) {
            if COUNTING.load(SeqCst) {
                LIVE.fetch_add(1, SeqCst);
            }
            return System.alloc(l);
        }
        let (o, off) = outer(&l);
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let counted = COUNTING.load(SeqCst);
        let user = base.add(off);
        let h = user.sub(40) as *mut u64;
        h.write_unaligned(MAGIC);
        h.add(1).write_unaligned(l.size() as u64);
        h.add(2).write_unaligned(l.align() as u64);
        h.add(4).write_unaligned(counted as u64);
        std::ptr::write_bytes(user, 0xa5, l.size());
        std::ptr::write_bytes(user.add(l.size()), 0xee, 32);
        if counted {
            LIVE.fetch_add(1, SeqCst);
        }
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let _rt = Rt::enter();
        if cfg!(miri) {
            if COUNTING.load(SeqCst) {
                LIVE.fetch_sub(1, SeqCst);
            }
            return System.dealloc(user, l);
        }
        let h = user.sub(40) as *mut u64;
        let m = h.read_unaligned();
        if m == DEAD {
            heap_error("block freed twice");
        }
        if m != MAGIC {
            heap_error("freed pointer is not a block, or its header was overwritten");
        }
        if h.add(1).read_unaligned() != l.size() as u64 || h.add(2).read_unaligned() != l.align() as u64 {
            heap_error("block freed with another layout");
        }
        for i in 0..32 {
            if user.add(l.size() + i).read() != 0xee {
                heap_error("write past the end of a block");
            }
        }
        h.write_unaligned(DEAD);
        std::ptr::write_bytes(user, 0xdd, l.size());
        if h.add(4).read_unaligned() == 1 {
            LIVE.fetch_sub(1, SeqCst);
            // counted blocks are quarantined (never reused)
        } else {
            System.dealloc(user.sub(outer(&l).1), outer(&l).0);
        }
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

#[derive(Default)]
struct St {
    q: VecDeque<(u32, u32, u64)>,
    params: HashMap<u32, u64>,
    out: Vec<String>,
    /// Threads of the harness, and which of them have not ended.
    threads: Vec<Job>,
    alive: Vec<usize>,
    turn: usize,
    granted: bool,
}
static ST: Mutex<Option<Box<St>>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
type Guard = MutexGuard<'static, Option<Box<St>>>;
fn lock() -> Guard {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}
fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let _rt = Rt::enter();
    let c = COUNTING.swap(false, SeqCst);
    let r = f();
    COUNTING.store(c, SeqCst);
    r
}
fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    uncounted(|| f(lock().get_or_insert_with(Default::default)))
}
fn finish(line: String, code: i32) -> ! {
    let _rt = Rt::enter();
    COUNTING.store(false, SeqCst);
    for l in &st(|s| std::mem::take(&mut s.out)) {
        println!("{l}");
    }
    println!("{line}");
    std::process::exit(code)
}
impl St {
    fn pop(&mut self, bits: u32, tag: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
        // compare-exchanges that may fail spuriously do not fail here
        while let Some((9001, _, v)) = self.q.front() {
            if *v != 0 {
                println!("DIVERGED: spurious failure");
                std::process::exit(14);
            }
            self.q.pop_front();
        }
        match self.q.pop_front() {
            Some((t, b, v)) => {
                if t != tag || b != bits {
                    println!("DIVERGED: harness asked for tag {tag}:{bits}, recorded {t}:{b}");
                    std::process::exit(14);
                }
                v & mask
            }
            None => 0,
        }
    }
    /// Which thread runs next, as the executor does it.
    fn schedule(&mut self) {
        self.granted = true;
        self.turn = match self.alive.len() {
            0 => 0,
            1 => self.alive[0],
            n => {
                let v = self.pop(3, 9000) as usize;
                self.alive[v % n]
            }
        };
        CV.notify_all();
    }
}
fn wait(mut g: Guard, me: usize) -> Guard {
    while g.as_ref().unwrap().turn != me {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g
}
/// An atomic access of the code under test is about to happen.
#[no_mangle]
extern "C" fn verif_point() {
    let me = ME.with(|m| m.get());
    if me == 0 || RT.with(|r| r.get()) > 0 {
        return;
    }
    let _rt = Rt::enter();
    let mut g = lock();
    while !g.as_ref().unwrap().granted {
        g.as_mut().unwrap().schedule();
        g = wait(g, me);
    }
    g.as_mut().unwrap().granted = false;
}

#[no_mangle]
extern "C" fn __sym_u(bits: u32, tag: u32) -> u64 {
    st(|s| s.pop(bits, tag))
}
#[no_mangle]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        finish("ASSUME".into(), 12)
    }
}
#[no_mangle]
extern "C" fn __sym_check(c: bool, id: u32) {
    if !c {
        finish(format!("CHECK {id}"), 10)
    }
}
#[no_mangle]
extern "C" fn __sym_reach(id: u32) {
    st(|s| s.out.push(format!("REACH {id}")))
}
#[no_mangle]
extern "C" fn __sym_note(v: u64) {
    st(|s| s.out.push(format!("NOTE {v}")))
}
#[no_mangle]
extern "C" fn __sym_live() -> u64 {
    LIVE.load(SeqCst)
}
#[no_mangle]
extern "C" fn __sym_param(id: u32, default: u64) -> u64 {
    st(|s| s.params.get(&id).copied().unwrap_or(default))
}
#[no_mangle]
extern "C" fn __sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C-unwind" fn __sym_panic() -> ! {
    std::panic::panic_any("harness panic")
}
#[no_mangle]
extern "C-unwind" fn __sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    match panic::catch_unwind(AssertUnwindSafe(|| f(data))) {
        Ok(()) => false,
        Err(e) => {
            drop(e);
            true
        }
    }
}
#[no_mangle]
extern "C" fn __sym_spawn(f: extern "C-unwind" fn(*mut u8), data: *mut u8) {
    st(|s| s.threads.push(Job(f, data)))
}
/// What a logical thread runs.
#[derive(Clone, Copy)]
struct Job(extern "C-unwind" fn(*mut u8), *mut u8);
unsafe impl Send for Job {}
fn run_thread(job: Job) {
    if let Err(e) = panic::catch_unwind(AssertUnwindSafe(|| (job.0)(job.1))) {
        panicked(e)
    }
}
#[no_mangle]
extern "C" fn __sym_join_all() {
    let _rt = Rt::enter();
    let c = COUNTING.swap(false, SeqCst);
    let ts = st(|s| std::mem::take(&mut s.threads));
    if cfg!(miri) {
        // free running: Miri chooses the schedule
        let hs: Vec<_> = ts.iter().map(|&job| std::thread::spawn(move || run_thread(job))).collect();
        for h in hs {
            h.join().unwrap();
        }
        COUNTING.store(c, SeqCst);
        return;
    }
    let done = std::sync::Arc::new((Mutex::new(false), Condvar::new()));
    let ready = std::sync::Arc::new(std::sync::Barrier::new(ts.len() + 1));
    let mut hs = Vec::new();
    for (i, &job) in ts.iter().enumerate() {
        let (ready, done) = (ready.clone(), done.clone());
        hs.push(std::thread::spawn(move || {
            let me = i + 1;
            RT.with(|r| r.set(1));
            ready.wait();
            drop(wait(lock(), me));
            ME.with(|m| m.set(me));
            RT.with(|r| r.set(0));
            run_thread(job);
            RT.with(|r| r.set(1));
            ME.with(|m| m.set(0));
            st(|s| {
                s.alive.retain(|x| *x != me);
                s.schedule();
            });
            let mut g = done.0.lock().unwrap();
            while !*g {
                g = done.1.wait(g).unwrap();
            }
        }));
    }
    ready.wait();
    COUNTING.store(c, SeqCst);
    st(|s| {
        s.alive = (1..=ts.len()).collect();
        s.schedule();
    });
    drop(wait(lock(), 0));
    COUNTING.store(false, SeqCst);
    *done.0.lock().unwrap() = true;
    done.1.notify_all();
    for h in hs {
        h.join().unwrap();
    }
    drop((ts, done, ready));
    COUNTING.store(c, SeqCst);
}
fn panicked(e: Box<dyn std::any::Any + Send>) -> ! {
    let _rt = Rt::enter();
    COUNTING.store(false, SeqCst);
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    finish(format!("PANIC {}", m.replace('\n', " ")), 11)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = match std::env::var("REPLAY_INPUTS") {
        Ok(t) => t,
        Err(_) => std::fs::read_to_string(&a[2]).unwrap(),
    };
    st(|s| {
        for l in text.split(['\n', ';']) {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.as_slice() {
                ["#", ..] => {}
                ["P", i, v] => {
                    s.params.insert(i.parse().unwrap(), v.parse().unwrap());
                }
                // under Miri the schedule is Miri's
                ["9000" | "9001", ..] if cfg!(miri) => {}
                [t, b, v] => s.q.push_back((t.parse().unwrap(), b.parse().unwrap(), v.parse().unwrap())),
                _ => {}
            }
        }
    });
    let f = harness::entry(&a[1]).expect("entry");
    panic::set_hook(Box::new(|_| {}));
    COUNTING.store(true, SeqCst);
    let r = panic::catch_unwind(|| f());
    COUNTING.store(false, SeqCst);
    match r {
        Ok(()) => finish("OK".into(), 0),
        Err(e) => panicked(e),
    }
}
