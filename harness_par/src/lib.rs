//! C18: parallel iteration. Built with the `parallel` feature against a stand-in for rayon-core.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;
#[path = "../../harness/src/model.rs"]
#[allow(unused)]
pub mod model;
#[path = "../../harness/src/rt.rs"]
#[allow(unused)]
pub mod rt;
use alloc::vec::Vec;
use core::cell::UnsafeCell;
use model::*;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use rt::*;
use sparsey::query::ParIter;
use sparsey::{Entity, World};

/// What the pieces visited. They run one at a time.
struct Log {
    e: [(u64, u64); 24],
    n: usize,
}
struct Shared(UnsafeCell<Log>);
unsafe impl Sync for Shared {}
impl Shared {
    fn new() -> Shared {
        Shared(UnsafeCell::new(Log { e: [(0, 0); 24], n: 0 }))
    }
    fn add(&self, k: u64, v: u64) {
        let l = unsafe { &mut *self.0.get() };
        check(l.n < 24, 800);
        l.e[l.n] = (k, v);
        l.n += 1;
    }
    fn log(&self) -> &Log {
        unsafe { &*self.0.get() }
    }
}
impl Log {
    /// The same items, in any order; keys occur once.
    fn same(&self, o: &Log, id: u32) {
        check(self.n == o.n, id);
        let mut i = 0;
        while i < self.n {
            let mut hits = 0;
            let mut j = 0;
            while j < o.n {
                if self.e[i].0 == o.e[j].0 {
                    hits += 1;
                    check(self.e[i].1 == o.e[j].1, id + 1);
                }
                j += 1;
            }
            check(hits == 1, id + 2);
            i += 1;
        }
    }
}
fn mix(a: u64, b: u64) -> u64 {
    a.wrapping_mul(0x1_0000_01b3) ^ b
}
fn opt<T: Kind>(o: Option<&T>) -> u64 {
    o.map_or(1, |x| mix(2, x.v()))
}

fn setup() -> (World, M) {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    populate(&mut w, &mut m);
    comp_ops(&mut w, &mut m);
    (w, m)
}

macro_rules! par {
    ($w:expr; $Q:ty; $pat:pat => $key:expr, $val:expr; $($f:tt)*) => {{
        let w: &World = $w;
        let seq = Shared::new();
        {
            let mut q = w.query_all::<$Q>() $($f)*;
            for $pat in q.iter() {
                seq.add(bits($key), $val);
            }
        }
        let want = seq.log();
        let mut q = w.query_all::<$Q>() $($f)*;
        match choose(param(10, 5), 40) {
            0 => {
                let s = Shared::new();
                q.par_for_each(|$pat| s.add(bits($key), $val));
                s.log().same(want, 810);
                reach(2);
            }
            1 => {
                let s = Shared::new();
                q.par_iter().for_each(|$pat| s.add(bits($key), $val));
                s.log().same(want, 813);
            }
            2 => {
                // opt_len decides how the vector is filled
                let it = q.par_iter();
                check(it.opt_len().map_or(true, |l| l == want.n), 816);
                let v: Vec<(u64, u64)> = it.map(|$pat| (bits($key), $val)).collect();
                let s = Shared::new();
                for (k, x) in v {
                    s.add(k, x);
                }
                s.log().same(want, 817);
            }
            3 => {
                let n = q.par_iter().map(|_| 1usize).reduce(|| 0, |a, b| a + b);
                check(n == want.n, 820);
                check(q.par_iter().count() == want.n, 821);
            }
            _ => match q.par_iter() {
                p if p.is_dense() == p.is_sparse() => check(false, 830),
                ParIter::Dense(d) => {
                    check(d.opt_len() == Some(want.n) && d.len() == want.n, 822);
                    let s = Shared::new();
                    let how = choose(4, 41);
                    if how == 2 {
                        // last to first, without the last one
                        d.rev().skip(1).enumerate().for_each(|(i, $pat)| {
                            check(i + 1 < want.n && want.e[want.n - 2 - i] == (bits($key), $val), 829);
                            s.add(bits($key), $val)
                        });
                        if want.n > 0 {
                            s.add(want.e[want.n - 1].0, want.e[want.n - 1].1);
                        }
                    } else if how == 3 {
                        let (a, b): (Vec<_>, Vec<_>) = d.map(|$pat| (bits($key), $val)).with_max_len(1).unzip();
                        for (k, x) in a.into_iter().zip(b) {
                            s.add(k, x);
                        }
                    } else if how == 1 {
                        d.enumerate().for_each(|(i, $pat)| {
                            check(i < want.n && want.e[i] == (bits($key), $val), 823);
                            s.add(bits($key), $val)
                        });
                    } else {
                        let v: Vec<(u64, u64)> = d.map(|$pat| (bits($key), $val)).collect();
                        for (k, x) in v {
                            s.add(k, x);
                        }
                    }
                    s.log().same(want, 824);
                    reach(3);
                }
                ParIter::Sparse(d) => {
                    let s = Shared::new();
                    d.for_each(|$pat| s.add(bits($key), $val));
                    s.log().same(want, 827);
                    reach(4);
                }
            },
        }
        note(want.n as u64);
    }};
}

/// Shared queries of many shapes.
#[no_mangle]
pub extern "C-unwind" fn h_c18_shared() {
    let (w, m) = setup();
    let w = &w;
    note_state(&m);
    match choose(12, 42) {
        0 => par!(w; (Entity, &A); (e, a) => e, a.v(); ),
        1 => par!(w; (Entity, &A, &B); (e, a, b) => e, mix(a.v(), b.v()); ),
        2 => par!(w; (Entity, &B, &A); (e, b, a) => e, mix(a.v(), b.v()); .exclude::<&C>()),
        3 => par!(w; (Entity, &A, Option<&C>); (e, a, c) => e, mix(a.v(), opt(c)); .include::<&B>()),
        4 => par!(w; (Entity, &C, &A, &B); (e, c, a, b) => e, mix(mix(a.v(), b.v()), c.v()); ),
        5 => par!(w; (Entity, &A, &B, &C); (e, a, b, c) => e, mix(mix(a.v(), b.v()), c.v()); .exclude::<&D>()),
        6 => par!(w; (Entity, &B, &C); (e, b, c) => e, mix(b.v(), c.v()); .exclude::<&A>()),
        7 => par!(w; Entity; e => e, 0; ),
        8 => par!(w; (Entity, Option<&A>); (e, a) => e, opt(a); ),
        9 => par!(w; (Entity, &D, &C); (e, d, c) => e, mix(c.v(), d.v()); ),
        10 => par!(w; Entity; e => e, 0; .include::<(&A, &B)>().exclude::<(&C, &D)>()),
        _ => par!(w; (Entity, &A); (e, a) => e, a.v(); .exclude::<(&B, &D)>()),
    }
    reach(1);
}

/// Values changed in parallel: each item is changed once, and only items.
#[no_mangle]
pub extern "C-unwind" fn h_c18_mut() {
    let (w, mut m) = setup();
    let w = &w;
    note_state(&m);
    let d = sym(32, 43) as u32;
    // any value and this one differ, so that a change shows
    macro_rules! upd {
        ($need:expr, $not:expr) => {
            let mut k = 0;
            while k < m.n {
                if m.matches(k, $need, $not) {
                    m.s[k].val[0] = (m.s[k].val[0] as u32).wrapping_add(d) as u64;
                }
                k += 1;
            }
        };
    }
    match choose(5, 44) {
        0 => {
            w.par_for_each::<&mut A>(|a| a.0 = a.0.wrapping_add(d));
            upd!(1, 0);
        }
        1 => {
            w.query_all::<(&mut A, &B)>().par_for_each(|(a, _)| a.0 = a.0.wrapping_add(d));
            upd!(3, 0);
        }
        2 => {
            let mut q = w.query_all::<(&B, &mut A)>().exclude::<&C>();
            q.par_iter().for_each(|(_, a)| a.0 = a.0.wrapping_add(d));
            upd!(3, 4);
        }
        3 => {
            let mut q = w.query_all::<(Option<&mut A>, Entity)>().include::<&C>();
            q.par_iter().for_each(|(a, _)| {
                if let Some(a) = a {
                    a.0 = a.0.wrapping_add(d)
                }
            });
            upd!(5, 0);
        }
        _ => {
            w.par_for_each::<(&mut A, &mut B, &mut C)>(|(a, b, c)| {
                a.0 = a.0.wrapping_add(d);
                b.0 ^= 0;
                c.0 ^= 0;
            });
            upd!(7, 0);
        }
    }
    check_kinds(w, &m);
    note_state(&m);
    reach(1);
}

/// Queries without the entity: the number of items and the sum of a hash of each.
#[no_mangle]
pub extern "C-unwind" fn h_c18_bare() {
    let (w, m) = setup();
    let w = &w;
    note_state(&m);
    macro_rules! bare {
        ($Q:ty; $pat:pat => $val:expr; $($f:tt)*) => {{
            let mut q = w.query_all::<$Q>() $($f)*;
            let (mut n, mut sum) = (0usize, 0u64);
            for $pat in q.iter() {
                n += 1;
                sum = sum.wrapping_add($val);
            }
            let s = q.par_iter().map(|$pat| (1usize, $val)).reduce(|| (0, 0u64), |a, b| (a.0 + b.0, a.1.wrapping_add(b.1)));
            check(s == (n, sum), 840);
            note(n as u64);
        }};
    }
    match choose(8, 45) {
        0 => bare!(&A; a => a.v(); ),
        1 => bare!((&B, &A); (b, a) => mix(a.v(), b.v()); ),
        2 => bare!(Option<&A>; a => opt(a); ),
        3 => bare!(Option<&A>; a => opt(a); .include::<(&B, &A)>()),
        4 => bare!((Option<&C>, Option<&B>); (c, b) => mix(opt(c), opt(b)); .include::<Entity>()),
        5 => bare!((); () => 1; .include::<(&A, &B)>()),
        6 => bare!((Option<&C>, &A); (c, a) => mix(opt(c), a.v()); .exclude::<&B>()),
        _ => bare!((); () => 1; ),
    }
    reach(1);
}

/// Hundreds of entities: every item once, in order where rayon promises an order.
#[no_mangle]
pub extern "C-unwind" fn h_c18_big() {
    let mut w = world(choose_layout(1));
    let n = param(2, 300) as usize;
    let mut es: Vec<(Entity, u8)> = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        let (a, b, c) = (A::mk(i as u64), B::mk(1000 + i as u64), C::mk(0));
        es.push(match i % 60 {
            7 => (w.create((a,)), 1),
            17 => (w.create((b, c)), 6),
            27 | 37 => (w.create((a, b)), 3),
            _ => (w.create((c, b, a)), 7),
        });
        i += 1;
    }
    let w = &w;
    let count = |need: u8, not: u8| es.iter().filter(|x| x.1 & need == need && x.1 & not == 0).count();
    let add = choose(5, 46);
    match add {
        0 => w.par_for_each::<(&A, &mut B)>(|(a, b)| b.0 += 10_000 * (1 + a.0 as u64 * 0)),
        1 => w.query_all::<&mut B>().exclude::<&C>().par_iter().for_each(|b| b.0 += 10_000),
        2 => {
            let mut q = w.query_all::<(&C, &A)>().include::<&B>();
            let v: Vec<u32> = q.par_iter().map(|(_, a)| a.0).collect();
            check(v.len() == count(7, 0), 850);
            let mut k = 0;
            for (_, a) in q.iter() {
                check(v[k] == a.0, 851);
                k += 1;
            }
            check(k == v.len(), 852);
        }
        3 => {
            let s = w.query_all::<&A>().par_iter().map(|a| (1usize, a.0 as u64)).reduce(|| (0, 0), |x, y| (x.0 + y.0, x.1 + y.1));
            let mut sum = 0;
            for a in w.query_all::<&A>().iter() {
                sum += a.0 as u64;
            }
            check(s == (count(1, 0), sum), 853);
        }
        _ => {
            let mut q = w.query_all::<(&A, Option<&mut B>)>();
            q.par_iter().for_each(|(_, b)| {
                if let Some(b) = b {
                    b.0 += 10_000;
                }
            });
        }
    }
    for (i, &(e, has)) in es.iter().enumerate() {
        let hit = match add {
            0 | 4 => has & 3 == 3,
            1 => has & 6 == 2,
            _ => false,
        };
        let want = (has & 2 != 0).then_some(1000 + i as u64 + if hit { 10_000 } else { 0 });
        check(w.query_one::<&B>().map(e, |b| b.0) == want, 854);
        check(w.query_one::<&A>().map(e, |a| a.0) == (has & 1 != 0).then_some(i as u32), 855);
    }
    note(add);
    reach(1);
}

pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
    match name {
        "h_c18_shared" => Some(h_c18_shared),
        "h_c18_bare" => Some(h_c18_bare),
        "h_c18_big" => Some(h_c18_big),
        "h_c18_mut" => Some(h_c18_mut),
        _ => None,
    }
}
