//! C19: entity allocation at its limits. Needs /repo built with `--cfg sparsey_verif`.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;
#[path = "../../harness/src/model.rs"]
#[allow(unused)]
pub mod model;
#[path = "../../harness/src/rt.rs"]
#[allow(unused)]
pub mod rt;
use core::num::NonZeroU32;
use model::*;
use rt::*;
use sparsey::entity::{Entity, VerifAllocator, Version};
use sparsey::World;

const END: u64 = 1 << 32;

fn version(tag: u32) -> Version {
    let v = sym(32, tag) as u32;
    assume(v != 0);
    Version(unsafe { NonZeroU32::new_unchecked(v) })
}

/// Handles given out by the allocator, each with its state.
const MAX: usize = 24;
struct Out {
    e: [Entity; MAX],
    live: [bool; MAX],
    pend: [bool; MAX],
    n: usize,
}
impl Out {
    fn issue(&mut self, e: Entity, live: bool, id: u32) {
        let mut k = 0;
        while k < self.n {
            // branch-free: versions and indexes may be symbolic
            let same = (self.e[k].index == e.index) & (self.e[k].version.0.get() >= e.version.0.get());
            check(!same, id);
            k += 1;
        }
        self.e[self.n] = e;
        self.live[self.n] = live;
        self.pend[self.n] = !live;
        self.n += 1;
    }
}

/// Histories of the allocator, starting near the last index with versions near the last one.
#[no_mangle]
pub extern "C-unwind" fn h_c19_alloc() {
    let mut a = VerifAllocator::default();
    let mut o = Out { e: [ent(0, 1); MAX], live: [false; MAX], pend: [false; MAX], n: 0 };
    // the first free index: any at all, including none
    let left = choose(param(2, 4), 1);
    let start = END - left;
    a.skip_to(start);
    // up to two earlier indexes with any version, one of them about to be reused
    let old = choose(3, 2);
    let mut i = 0;
    while i < old {
        let e = Entity::new(100 + i as u32, version(3));
        o.issue(e, true, 700);
        i += 1;
    }
    let mut fresh = 0u64;
    // indexes that can be used again
    let mut free = 0u64;
    let mut i = 0;
    while i < param(1, 5) {
        let c = choose(4 + o.n as u64, 4);
        match c {
            0 | 1 => {
                let r = if c == 0 { a.allocate() } else { a.allocate_atomic() };
                match r {
                    Some(e) => {
                        if e.index as u64 >= start + fresh {
                            check(e.index as u64 == start + fresh, 701);
                            check(e.version == Version::FIRST, 702);
                            fresh += 1;
                        } else {
                            check(free > 0, 707);
                            free -= 1;
                        }
                        o.issue(e, c == 0, 703);
                        reach(1);
                    }
                    None => {
                        // refused only when all indexes are used up
                        check(fresh == left && free == 0, 704);
                        reach(2);
                    }
                }
            }
            2 => {
                let es = a.maintain();
                let mut want = 0;
                let mut k = 0;
                while k < o.n {
                    if o.pend[k] {
                        want += 1;
                        let mut hits = 0;
                        for e in &es {
                            hits += ((e.index == o.e[k].index) & (e.version == o.e[k].version)) as usize;
                        }
                        check(hits == 1, 705);
                        o.pend[k] = false;
                        o.live[k] = true;
                    }
                    k += 1;
                }
                check(es.len() == want, 706);
                if want > 0 {
                    reach(3);
                }
            }
            3 => {}
            _ => {
                let k = c as usize - 4;
                assume(o.live[k]);
                o.live[k] = false;
                a.recycle(o.e[k]);
                if o.e[k].version == Version::LAST {
                    reach(4);
                } else {
                    free += 1;
                }
            }
        }
        i += 1;
    }
    note(o.n as u64);
    note(fresh);
    let mut k = 0;
    while k < o.n {
        note(bits(o.e[k]));
        k += 1;
    }
    reach(5);
}

/// The cursor anywhere at all: what a single allocation returns.
#[no_mangle]
pub extern "C-unwind" fn h_c19_cursor() {
    let mut a = VerifAllocator::default();
    let at = sym(64, 10);
    assume(at <= END);
    a.skip_to(at);
    let first = if flip(11) { a.allocate_atomic() } else { a.allocate() };
    match first {
        Some(e) => {
            check((at < END) & (e.index as u64 == at) & (e.version == Version::FIRST), 710);
            let second = a.allocate_atomic();
            match second {
                Some(f) => {
                    check((at + 1 < END) & (f.index as u64 == at + 1), 711);
                    reach(1);
                }
                None => {
                    check(at + 1 == END, 712);
                    reach(2);
                }
            }
        }
        None => {
            check(at == END, 713);
            check(a.allocate().is_none() && a.allocate_atomic().is_none(), 714);
            reach(3);
        }
    }
    note(at);
}

/// A world whose indexes run out: creation panics and nothing else changes.
#[no_mangle]
pub extern "C-unwind" fn h_c19_world() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    let n = choose(3, 2);
    let mut i = 0;
    while i < n {
        let set = choose_set(kinds(), true, 20);
        create(&mut w, &mut m, set);
        i += 1;
    }
    if n > 0 && flip(5) {
        destroy(&mut w, &mut m, 0);
    }
    let free = m.n - m.live_count();
    w.verif_skip_to(END);
    let mut avail = free;
    let mut i = 0;
    while i < param(1, 3) {
        match choose(6, 6) {
            0 => {
                let mut e = ent(0, 1);
                let p = catch(|| e = w.create((A::mk(7), B::mk(8))));
                check(p == (avail == 0), 720);
                if !p {
                    let k = m.issue(e, true, 721);
                    m.put::<A>(k, 7);
                    m.put::<B>(k, 8);
                    avail -= 1;
                } else {
                    reach(2);
                }
            }
            1 => {
                let mut e = ent(0, 1);
                let p = catch(|| e = w.create_atomic());
                check(p == (avail == 0), 723);
                if !p {
                    m.issue(e, false, 724);
                    avail -= 1;
                } else {
                    reach(3);
                }
            }
            2 => {
                let mut es = [ent(0, 1); 2];
                let len = 1 + choose(2, 7) as usize;
                let before = w.entities().len();
                let p = catch(|| es[..len].copy_from_slice(w.extend((0..len).map(|_| (C::mk(3),)))));
                check(p == (avail < len), 726);
                // those created before the indexes ran out are there
                let made = if p { avail } else { len };
                check(w.entities().len() == before + made, 727);
                let mut i = 0;
                while i < made {
                    let e = w.entities()[before + i];
                    check(p || e == es[i], 728);
                    let k = m.issue(e, true, 729);
                    m.put::<C>(k, 3);
                    i += 1;
                }
                avail -= made;
                if p {
                    reach(4);
                }
            }
            3 => {
                assume(m.n > 0);
                let k = choose(m.n as u64, 8) as usize;
                if m.s[k].live {
                    avail += 1;
                }
                destroy(&mut w, &mut m, k);
            }
            4 => {
                w.maintain();
                m.maintain();
            }
            _ => {
                w.clear();
                m.kill_all();
            }
        }
        i += 1;
    }
    check_live(&w, &m);
    check_kinds(&w, &m);
    note_state(&m);
    reach(1);
}

/// An index whose version runs out is retired.
#[no_mangle]
pub extern "C-unwind" fn h_c19_version() {
    let mut w = world(choose_layout(1));
    let e = w.create((A::mk(1), B::mk(2)));
    let other = w.create((A::mk(9),));
    check(w.destroy(e), 740);
    let v = version(3);
    assume(v > e.version);
    w.verif_set_recycled_version(v);
    let mut last = e;
    let mut i = 0;
    while i < param(1, 3) {
        let x = sym(32, 9) as u32;
        let f = if flip(5) {
            let f = w.create_atomic();
            check(!w.contains_entity(f), 741);
            w.maintain();
            check(w.contains_entity(f), 748);
            check(w.insert(f, (A(x), C(3))), 742);
            f
        } else {
            w.create((A(x), C(3)))
        };
        check(f != other && f != e, 743);
        if f.index == e.index {
            check(f.version > last.version, 744);
        } else {
            // retired: only after the last version
            check(last.version == Version::LAST, 745);
            reach(2);
        }
        check(!w.contains_entity(last), 746);
        check(w.contains::<&A>(f) && !w.contains::<&B>(f), 747);
        check(w.borrow::<A>().get(f).map(|a| a.0) == Some(x), 749);
        check(w.query_one::<&A>().get(last).is_none(), 750);
        check(w.destroy(f) && !w.contains_entity(f) && !w.destroy(f), 751);
        if f.index != e.index {
            reach(3);
            break;
        }
        last = f;
        i += 1;
    }
    check(w.entities().len() == 1 && w.contains_entity(other), 752);
    check(w.borrow::<A>().get(other).map(|a| a.0) == Some(9), 753);
    note(bits(last));
    reach(1);
}

pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
    match name {
        "h_c19_alloc" => Some(h_c19_alloc),
        "h_c19_cursor" => Some(h_c19_cursor),
        "h_c19_world" => Some(h_c19_world),
        "h_c19_version" => Some(h_c19_version),
        _ => None,
    }
}
