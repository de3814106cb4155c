//! C03, C13: a world shared by threads.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;
#[path = "../../harness/src/model.rs"]
#[allow(unused)]
pub mod model;
#[path = "../../harness/src/rt.rs"]
#[allow(unused)]
pub mod rt;
use model::*;
use core::sync::atomic::{AtomicU32, Ordering::SeqCst};
use rt::*;
use sparsey::{Entity, World};

const T: usize = 3;
const E: usize = 4;

/// A world with live, dead and deferred entities.
fn setup(w: &mut World, m: &mut M) {
    let n = choose(param(1, 3) + 1, 1);
    let mut i = 0;
    while i < n {
        let e = w.create((A(0),));
        m.issue(e, true, 1);
        i += 1;
    }
    let mut k = 0;
    while k < n as usize {
        if flip(2) {
            check(w.destroy(m.s[k].e), 2);
            m.s[k].live = false;
        }
        k += 1;
    }
    let n = choose(param(2, 1) + 1, 3);
    let mut i = 0;
    while i < n {
        let e = w.create_atomic();
        m.issue(e, false, 4);
        i += 1;
    }
}

/// create_atomic in up to three threads, with a reader beside them.
#[no_mangle]
pub extern "C-unwind" fn h_c03_threads() {
    let mut w = world(0);
    let mut m = M::new();
    setup(&mut w, &mut m);
    note_state(&m);
    let threads = param(3, 2) as usize;
    let each = param(4, 2) as usize;
    let reader = param(5, 0) == 1;
    let mut got: [[Option<Entity>; E]; T] = [[None; E]; T];
    let live = w.entities().len();
    {
        let w = &w;
        let m = &m;
        let run = |g: &mut [Option<Entity>; E]| {
            let mut i = 0;
            while i < each {
                let e = w.create_atomic();
                // what a thread gets is not alive, to itself or to others
                check(!w.contains_entity(e), 5);
                g[i] = Some(e);
                i += 1;
            }
        };
        let [g0, g1, g2] = &mut got;
        let mut f0 = Some(|| run(g0));
        let mut f1 = Some(|| run(g1));
        let mut f2 = Some(|| {
            if reader {
                // what is alive does not change meanwhile
                let mut n = 0;
                w.for_each::<(Entity, &A)>(|(e, _)| {
                    check(w.contains_entity(e), 6);
                    n += 1;
                });
                check(n == live && w.entities().len() == live, 7);
                let mut k = 0;
                while k < m.n {
                    check(w.contains_entity(m.s[k].e) == m.s[k].live, 8);
                    k += 1;
                }
                reach(3);
            } else {
                run(g2)
            }
        });
        unsafe {
            spawn(&mut f0);
            spawn(&mut f1);
            if threads > 2 {
                spawn(&mut f2);
            }
        }
        join_all();
    }
    let mut t = 0;
    while t < if reader { 2 } else { threads } {
        let mut i = 0;
        while i < each {
            check(got[t][i].is_some(), 9);
            if let Some(e) = got[t][i] {
                // distinct from everything issued so far
                m.issue(e, false, 10);
                note(bits(e));
            }
            i += 1;
        }
        t += 1;
    }
    check_live(&w, &m);
    match choose(5, 12) {
        0 => {}
        1 => {
            // an entity created first is none of the deferred ones
            let e = w.create(());
            m.issue(e, true, 13);
            check_live(&w, &m);
        }
        2 => {
            w.clear();
            m.kill_all();
        }
        3 => {
            let e = w.create_atomic();
            m.issue(e, false, 15);
        }
        _ => {
            let mut k = 0;
            while k < m.n {
                // deferred entities are not there yet
                check(w.destroy(m.s[k].e) == m.s[k].live, 16);
                m.s[k].live = false;
                k += 1;
            }
        }
    }
    w.maintain();
    m.maintain();
    check_live(&w, &m);
    let e = w.create(());
    m.issue(e, true, 18);
    check_live(&w, &m);
    note_state(&m);
    reach(1);
}

/// Threads that hold something at the moment.
static SHARED: AtomicU32 = AtomicU32::new(0);
static EXCL: AtomicU32 = AtomicU32::new(0);

fn hold(excl: bool) {
    if excl {
        check(EXCL.fetch_add(1, SeqCst) == 0 && SHARED.load(SeqCst) == 0, 30);
        reach(2);
        EXCL.fetch_sub(1, SeqCst);
    } else {
        SHARED.fetch_add(1, SeqCst);
        check(EXCL.load(SeqCst) == 0, 31);
        SHARED.fetch_sub(1, SeqCst);
    }
}

/// Threads that borrow one component type, shared or exclusively.
#[no_mangle]
pub extern "C-unwind" fn h_c13_threads() {
    let mut w = world(0);
    let v = sym(32, 20);
    let e = w.create((A(v as u32), B(1)));
    let threads = param(3, 2) as usize;
    let mut what = [0; T];
    let mut refused = [false; T];
    let mut t = 0;
    while t < threads {
        what[t] = choose(param(6, 6), 21);
        t += 1;
    }
    let excl = |c: u64| c % 2 == 1;
    let mut any = false;
    {
        let w = &w;
        let run = |c: u64, refused: &mut bool| {
            *refused = catch(|| match c {
                0 => {
                    let x = w.borrow::<A>();
                    check(x[e].v() == v, 32);
                    hold(false);
                }
                1 => {
                    let mut x = w.borrow_mut::<A>();
                    check(x.get_mut(e).unwrap().v() == v, 33);
                    hold(true);
                }
                2 => w.for_each::<&A>(|x| {
                    check(x.v() == v, 34);
                    hold(false)
                }),
                3 => w.for_each::<(&B, &mut A)>(|(_, x)| {
                    check(x.v() == v, 35);
                    hold(true)
                }),
                4 => {
                    let q = w.query_all::<&B>().include::<&A>();
                    hold(false);
                    drop(q);
                }
                _ => {
                    let q = w.query_one::<&B>().exclude::<&mut A>();
                    hold(true);
                    check(!q.contains(e), 36);
                }
            });
        };
        let [r0, r1, r2] = &mut refused;
        let mut f0 = Some(|| run(what[0], r0));
        let mut f1 = Some(|| run(what[1], r1));
        let mut f2 = Some(|| run(what[2], r2));
        unsafe {
            spawn(&mut f0);
            spawn(&mut f1);
            if threads > 2 {
                spawn(&mut f2);
            }
        }
        join_all();
        let mut t = 0;
        while t < threads {
            any |= excl(what[t]);
            t += 1;
        }
    }
    let mut t = 0;
    while t < threads {
        if refused[t] {
            reach(3);
        }
        // refused only for a conflict
        check(!refused[t] || any, 37);
        note(refused[t] as u64 * 8 + what[t]);
        t += 1;
    }
    // everything is released and unchanged
    check(w.borrow_mut::<A>().get_mut(e).unwrap().v() == v, 39);
    check(w.borrow_mut::<B>().len() == 1, 40);
    reach(1);
}

pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
    match name {
        "h_c13_threads" => Some(h_c13_threads),
        "h_c03_threads" => Some(h_c03_threads),
        _ => None,
    }
}
