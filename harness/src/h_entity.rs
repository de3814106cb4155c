//! C01, C02: entity handles and liveness.
use crate::model::*;
use crate::rt::*;
use sparsey::{Entity, World};

/// Whether entities have components, in a world with groups (param 9).
fn rich() -> bool {
    param(9, 0) == 1
}
fn make(w: &mut World) -> Entity {
    if rich() {
        w.create((A::mk(1), B::mk(2)))
    } else {
        w.create(())
    }
}
fn make_two(w: &mut World) -> [Entity; 2] {
    let s = if rich() { w.extend([(C::mk(1), A::mk(3)), (C::mk(2), A::mk(4))]) } else { w.extend([(), ()]) };
    check(s.len() == 2, 7);
    [s[0], s[1]]
}
/// Operations that concern entities only by the way.
fn beside(w: &mut World, m: &mut M, c: u64) {
    match c {
        0 => w.set_layout(&layout(5)),
        1 => w.set_layout(&layout(2)),
        _ => {
            if m.n > 0 {
                let k = m.n - 1;
                check(w.insert(m.s[k].e, (C::mk(5), B::mk(6))) == m.s[k].live, 20);
                w.delete::<(A, B)>(m.s[0].e);
            }
        }
    }
    reach(4);
}

/// One symbolic entity operation.
pub fn entity_op(w: &mut World, m: &mut M, with_clear: bool) {
    let room = N - m.n;
    // 0 maintain, 1 create_atomic, 2 create, 3 extend(2), 4 clear, 5.. destroy(k), then others
    let c = choose(5 + m.n as u64 + if rich() { 4 } else { 0 }, 1);
    match c {
        0 => {
            w.maintain();
            m.maintain();
        }
        1 => {
            assume(room >= 1);
            let e = w.create_atomic();
            m.issue(e, false, 1);
            check(!w.contains_entity(e), 3);
        }
        2 => {
            assume(room >= 1);
            let e = make(w);
            m.issue(e, true, 4);
            check(w.contains_entity(e), 6);
        }
        3 => {
            assume(room >= 2);
            let es = make_two(w);
            m.issue(es[0], true, 1);
            m.issue(es[1], true, 1);
        }
        4 => {
            assume(with_clear);
            w.clear();
            m.kill_all();
        }
        c if c < 5 + m.n as u64 => {
            let k = c as usize - 5;
            destroy(w, m, k);
            reach(1);
        }
        c => match c - 5 - m.n as u64 {
            3 => {
                w.reset();
                *m = M::new();
                reach(5);
            }
            c => beside(w, m, c),
        },
    }
}

fn history(steps: u64) -> (World, M) {
    let mut w = if rich() { world(choose_layout(2)) } else { World::default() };
    let mut m = M::new();
    let mut i = 0;
    while i < steps {
        entity_op(&mut w, &mut m, true);
        i += 1;
    }
    (w, m)
}

/// Handles are never reissued, dead entities stay dead.
#[cfg(any(not(pick), h_c01_hist))]
#[no_mangle]
pub extern "C-unwind" fn h_c01_hist() {
    let l0 = live();
    {
        let (mut w, mut m) = history(param(1, 5));
        let mut k = 0;
        while k < m.n {
            check(w.contains_entity(m.s[k].e) == m.s[k].live, 8);
            k += 1;
        }
        // everything owed by maintain turns up now, and nothing else
        w.maintain();
        m.maintain();
        check_live(&w, &m);
        let e = w.create(());
        m.issue(e, true, 4);
        check_live(&w, &m);
        note(m.n as u64);
        note(bits(e));
        reach(2);
    }
    check(live() == l0, 9);
}

/// Liveness queries, for known and arbitrary handles.
#[cfg(any(not(pick), h_c02_hist))]
#[no_mangle]
pub extern "C-unwind" fn h_c02_hist() {
    let (mut w, mut m) = history(param(1, 4));
    check_live(&w, &m);
    check_any_handle(&w, &m);
    // destroy an arbitrary handle
    let e = any_entity(210);
    let mut hit = N;
    let ok = w.destroy(e);
    if ok {
        let mut k = 0;
        while k < m.n {
            if m.s[k].live && bits(e) == bits(m.s[k].e) {
                hit = k;
            }
            k += 1;
        }
        check(hit < N, 11);
        m.kill(hit);
        reach(1);
    } else {
        let mut any = false;
        let mut k = 0;
        while k < m.n {
            any |= (bits(e) == bits(m.s[k].e)) & m.s[k].live;
            k += 1;
        }
        check(!any, 12);
        reach(2);
    }
    check_live(&w, &m);
    note(ok as u64);
    note(m.live_count() as u64);
}

/// A new entity of the history in `h_c22_reuse`: the waiting index it takes, or the next unused one.
fn taken(m: &mut M, free: &mut u32, fresh: &mut u32, e: Entity, live: bool) {
    m.issue(e, live, 670);
    check(e.index <= *fresh, 672);
    if e.index == *fresh {
        check(*free == 0, 673);
        *fresh += 1;
    } else {
        // of a destroyed entity that nobody uses
        check(*free >> e.index & 1 == 1, 674);
        *free &= !(1 << e.index);
        reach(2);
    }
}

/// Indexes of destroyed entities are used again before new ones.
#[cfg(any(not(pick), h_c22_reuse))]
#[no_mangle]
pub extern "C-unwind" fn h_c22_reuse() {
    let mut w = if rich() { world(choose_layout(2)) } else { World::default() };
    let mut m = M::new();
    let (mut free, mut fresh) = (0u32, 0u32);
    let mut i = 0;
    while i < param(1, 5) {
        let room = N - m.n;
        // 0 maintain, 1 create_atomic, 2 create, 3 extend(2), 4 reset, 5.. destroy(k), then others
        match choose(5 + m.n as u64 + if rich() { 3 } else { 0 }, 1) {
            0 => {
                w.maintain();
                m.maintain();
            }
            1 => {
                assume(room >= 1);
                let e = w.create_atomic();
                taken(&mut m, &mut free, &mut fresh, e, false);
            }
            2 => {
                assume(room >= 1);
                let e = make(&mut w);
                taken(&mut m, &mut free, &mut fresh, e, true);
            }
            3 => {
                assume(room >= 2);
                let es = make_two(&mut w);
                taken(&mut m, &mut free, &mut fresh, es[0], true);
                taken(&mut m, &mut free, &mut fresh, es[1], true);
            }
            4 => {
                w.reset();
                m = M::new();
                (free, fresh) = (0, 0);
                reach(3);
            }
            c if c >= 5 + m.n as u64 => {
                let c = c - 5 - m.n as u64;
                beside(&mut w, &mut m, c)
            }
            c => {
                let k = c as usize - 5;
                let was = m.s[k].live;
                destroy(&mut w, &mut m, k);
                if was {
                    free |= 1 << m.s[k].e.index;
                }
            }
        }
        i += 1;
    }
    // all that wait are used before a new index
    while free != 0 && m.n < N {
        let e = if flip(2) { make(&mut w) } else { w.create_atomic() };
        let live = w.contains_entity(e);
        taken(&mut m, &mut free, &mut fresh, e, live);
    }
    let e = w.create(());
    if m.n < N {
        taken(&mut m, &mut free, &mut fresh, e, true);
    }
    note(m.n as u64);
    note(fresh as u64);
    reach(1);
}
