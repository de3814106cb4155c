//! C13: shared-xor-exclusive borrowing at run time.
use crate::model::*;
use crate::rt::*;
use sparsey::component::{View, ViewMut};
use sparsey::query::{QueryAll, QueryOne};
use sparsey::World;

enum Held<'a> {
    VA(View<'a, A>),
    VB(View<'a, B>),
    XA(ViewMut<'a, A>),
    XB(ViewMut<'a, B>),
    QAB(QueryAll<'a, (&'a A, &'a mut B), (), ()>),
    QOB(QueryOne<'a, Option<&'a B>, (), ()>),
    QXA(QueryOne<'a, &'a mut A, (), ()>),
    QEx(QueryAll<'a, &'a B, &'a A, &'a mut C>),
    QOpt(QueryAll<'a, (&'a B, Option<&'a mut A>), (), ()>),
    VC(View<'a, C>),
    XC(ViewMut<'a, C>),
}

/// Shared and exclusive component sets of each kind of borrow.
const SX: [(u8, u8); 11] =
    [(1, 0), (2, 0), (0, 1), (0, 2), (1, 2), (2, 0), (0, 1), (3, 4), (2, 1), (4, 0), (0, 4)];

fn take<'a>(w: &'a World, c: u64) -> Held<'a> {
    match c {
        0 => Held::VA(w.borrow()),
        1 => Held::VB(w.borrow_with_group_info().0),
        2 => Held::XA(w.borrow_mut()),
        3 => Held::XB(w.borrow_with_group_info_mut().0),
        4 => Held::QAB(w.query_all()),
        5 => Held::QOB(w.query_one()),
        6 => Held::QXA(w.query_one()),
        7 => Held::QEx(w.query_all::<&B>().include::<&A>().exclude::<&mut C>()),
        8 => Held::QOpt(w.query_all()),
        9 => Held::VC(w.borrow()),
        _ => Held::XC(w.borrow_mut()),
    }
}

/// The borrow is usable: reads what the world contains.
fn usable(h: &mut Held, m: &M) {
    let va = m.s[0].val[0];
    let vb = m.s[0].val[1];
    let e = m.s[0].e;
    match h {
        Held::VA(v) => check(v.get(e).unwrap().v() == va, 370),
        Held::VB(v) => check(v[e].v() == vb, 371),
        Held::XA(v) => check(v.get_mut(e).unwrap().v() == va, 372),
        Held::XB(v) => check(v.as_mut_slice()[0].v() == vb, 373),
        Held::QAB(q) => {
            let mut n = 0;
            q.for_each(|(a, b)| {
                check(a.v() == va && b.v() == vb, 374);
                n += 1;
            });
            check(n == 1, 375);
        }
        Held::QOB(q) => check(q.get(e).unwrap().unwrap().v() == vb, 376),
        Held::QXA(q) => check(q.get(e).unwrap().v() == va, 377),
        Held::QEx(q) => check(q.iter().count() == 0, 378),
        Held::QOpt(q) => check(q.iter().count() == 1, 379),
        Held::VC(v) => check(v.len() == 1, 380),
        Held::XC(v) => check(v.len() == 1, 381),
    }
}

/// Symbolic sequences of borrowing and releasing.
#[cfg(any(not(pick), h_c13_seq))]
#[no_mangle]
pub extern "C-unwind" fn h_c13_seq() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    create(&mut w, &mut m, 7);
    {
        let w = &w;
        const H: usize = 6;
        let mut held: [Option<(Held, u8, u8)>; H] = [None, None, None, None, None, None];
        let mut nh = 0;
        let mut i = 0;
        while i < param(1, 3) {
            let c = choose(11 + nh as u64, 40);
            if c < 11 {
                let (s, x) = SX[c as usize];
                let mut clash = s & x != 0;
                let mut j = 0;
                while j < H {
                    if let Some((_, hs, hx)) = &held[j] {
                        clash |= s & hx != 0 || x & (hs | hx) != 0;
                    }
                    j += 1;
                }
                let mut got = None;
                let p = catch(|| got = Some(take(w, c)));
                check(p == clash, 382);
                if !p {
                    let mut j = 0;
                    while j < H {
                        if held[j].is_none() {
                            held[j] = Some((got.unwrap(), s, x));
                            break;
                        }
                        j += 1;
                    }
                    nh += 1;
                    reach(2);
                } else {
                    reach(3);
                }
            } else {
                // release the (c - 11)-th borrow
                let mut r = c - 11;
                let mut j = 0;
                while j < H {
                    if held[j].is_some() {
                        if r == 0 {
                            held[j] = None;
                            nh -= 1;
                            break;
                        }
                        r -= 1;
                    }
                    j += 1;
                }
                reach(4);
            }
            let mut j = 0;
            while j < H {
                if let Some((h, _, _)) = &mut held[j] {
                    usable(h, &m);
                }
                j += 1;
            }
            i += 1;
        }
        note(nh as u64);
    }
    // everything is released: exclusive borrows of all succeed
    check(!catch(|| drop((w.borrow_mut::<A>(), w.borrow_mut::<B>(), w.borrow_mut::<C>(), w.borrow_mut::<D>()))), 383);
    check_kinds(&w, &m);
    check_live(&w, &m);
    reach(1);
}

/// A query that asks for the same component in conflicting ways panics and releases everything.
#[cfg(any(not(pick), h_c13_self))]
#[no_mangle]
pub extern "C-unwind" fn h_c13_self() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    populate(&mut w, &mut m);
    let c = choose(12, 41);
    let (bad, p) = {
        let w = &w;
        match c {
            0 => (true, catch(|| drop(w.query_all::<(&A, &mut A)>().iter().count()))),
            1 => (true, catch(|| drop(w.query_all::<(&mut A, &A)>().slice().is_some()))),
            2 => (true, catch(|| drop(w.query_all::<(&mut A, &mut A)>().iter().count()))),
            3 => (false, catch(|| drop(w.query_all::<(&A, &A, Option<&A>)>().include::<&A>().iter().count()))),
            4 => (true, catch(|| drop(w.query_all::<&mut A>().include::<&A>().iter().count()))),
            5 => (true, catch(|| drop(w.query_all::<(&B, Option<&mut A>)>().exclude::<&A>().iter().count()))),
            6 => (true, catch(|| drop(w.query_one::<(&B, &A, Option<&mut B>)>().contains(ent(0, 1))))),
            7 => (true, catch(|| w.for_each::<(&C, &mut C)>(|_| ()))),
            8 => (false, catch(|| w.for_each::<(&C, &mut B, Option<&mut A>)>(|_| ()))),
            9 => (true, catch(|| drop(w.contains::<(&A, &mut A)>(ent(0, 1))))),
            10 => (true, catch(|| drop(w.query_one::<&A>().include::<&mut A>().get(ent(0, 1)).is_some()))),
            _ => (true, catch(|| drop(w.query_one::<&A>().exclude::<&mut A>().get(ent(0, 1)).is_some()))),
        }
    };
    check(p == bad, 390);
    // a borrow inside a running query
    let q = catch(|| {
        w.for_each::<&mut A>(|_| {
            let _ = w.borrow::<B>();
            let _ = w.borrow_mut::<D>();
        })
    });
    check(!q, 391);
    let q = catch(|| {
        w.for_each::<&mut A>(|_| {
            let _ = w.borrow::<A>();
        })
    });
    check(q == (m.count(1, 0) > 0), 392);
    let q = catch(|| {
        w.for_each::<&A>(|_| {
            let _ = w.borrow::<A>().len();
            w.for_each::<(&A, &mut B)>(|_| ());
        })
    });
    check(!q, 393);
    check(!catch(|| drop((w.borrow_mut::<A>(), w.borrow_mut::<B>(), w.borrow_mut::<C>(), w.borrow_mut::<D>()))), 394);
    check_kinds(&w, &m);
    note_state(&m);
    reach(1);
}
