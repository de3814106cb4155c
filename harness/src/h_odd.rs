//! C04, C06, C08: unusual but legal tuples: repeated components, contradictory and redundant filters.
use crate::model::*;
use crate::rt::*;
use sparsey::{Entity, World};

fn setup() -> (World, M, u64) {
    let l = choose_layout(1);
    let mut w = world(l);
    let mut m = M::new();
    populate(&mut w, &mut m);
    comp_ops(&mut w, &mut m);
    (w, m, l)
}

/// Iterates a query; `$f` gives the entity of an item and whether its values are right.
macro_rules! each {
    ($m:expr, $q:expr, $need:expr, $not:expr, |$p:pat_param, $s:ident| $e:expr, $ok:expr) => {{
        let m = $m;
        let (need, not): (u8, u8) = ($need, $not);
        let expect = m.count(need, not);
        let mut q = $q;
        let mut seen = 0u32;
        let mut n = 0;
        {
            let mut it = q.iter();
            let (lo, hi) = it.size_hint();
            check(lo <= expect && hi.map_or(true, |h| h >= expect), 680);
            while let Some($p) = it.next() {
                let k = m.find($e);
                check(k < N, 681);
                check(m.matches(k, need, not), 682);
                check(seen >> k & 1 == 0, 683);
                seen |= 1 << k;
                n += 1;
                #[allow(unused)]
                let $s = &m.s[k];
                check($ok, 684);
            }
            check(it.next().is_none(), 685);
        }
        check(n == expect, 686);
        let mut c = 0;
        q.for_each(|_| c += 1);
        check(c == expect, 687);
    }};
}

#[cfg(any(not(pick), h_c06_odd))]
#[no_mangle]
pub extern "C-unwind" fn h_c06_odd() {
    let (w, m, _) = setup();
    let (w, m) = (&w, &m);
    // the same component several times
    each!(m, w.query_all::<(&A, Entity, &A)>(), 1, 0, |(x, e, y), s| e, x.v() == s.val[0] && y.v() == s.val[0]);
    each!(m, w.query_all::<(&A, &B, &A, Entity)>(), 3, 0, |(x, b, y, e), s| e,
        x.v() == s.val[0] && b.v() == s.val[1] && y.v() == s.val[0]);
    each!(m, w.query_all::<(&B, &B, &A, &A, &C, Entity)>(), 7, 0, |(b, b2, a, a2, c, e), s| e,
        a.v() == s.val[0] && b.v() == s.val[1] && b2.v() == s.val[1] && a2.v() == s.val[0] && c.v() == s.val[2]);
    each!(m, w.query_all::<(Option<&B>, &A, Option<&A>, Entity, Entity)>(), 1, 0, |(b, a, o, e, f), s| e,
        e == f && o.map(Kind::v) == Some(s.val[0]) && a.v() == s.val[0]
        && b.map(Kind::v) == (s.has & 2 != 0).then_some(s.val[1]));
    // redundant filters
    each!(m, w.query_all::<(Entity, &A)>().include::<(&A, &A)>(), 1, 0, |(e, a), s| e, a.v() == s.val[0]);
    each!(m, w.query_all::<(Entity, &B)>().include::<(&A, &B)>(), 3, 0, |(e, b), s| e, b.v() == s.val[1]);
    each!(m, w.query_all::<(Entity, &A, &B)>().exclude::<(&C, &C)>(), 3, 4, |(e, a, b), s| e,
        a.v() == s.val[0] && b.v() == s.val[1]);
    each!(m, w.query_all::<(Entity, &A)>().include::<(&B, &A)>().exclude::<(&D, &C, &D)>(), 3, 12, |(e, a), s| e, a.v() == s.val[0]);
    each!(m, w.query_all::<(Entity, &A)>().include::<(Entity, &B, Option<&C>)>(), 3, 0, |(e, a), s| e, a.v() == s.val[0]);
    each!(m, w.query_all::<(Entity, &B)>().include::<(&mut A, Option<&mut C>)>(), 3, 0, |(e, b), s| e, b.v() == s.val[1]);
    each!(m, w.query_all::<(Entity, &mut A, &mut B)>().exclude::<&mut C>(), 3, 4, |(e, a, b), s| e,
        a.v() == s.val[0] && b.v() == s.val[1]);
    // a filter that replaces the components one by one
    each!(m, w.query_all::<Entity>().include::<(&A, &B, &C, &D)>(), 15, 0, |e, s| e, true);
    each!(m, w.query_all::<(Entity,)>().exclude::<(&C, &B)>().include::<(&A,)>(), 1, 6, |(e,), s| e, true);
    // filters nothing can pass
    each!(m, w.query_all::<(Entity, &A)>().exclude::<&A>(), 1, 1, |(e, _), s| e, true);
    each!(m, w.query_all::<(Entity, &A, &B)>().exclude::<&B>(), 3, 2, |(e, ..), s| e, true);
    each!(m, w.query_all::<(Entity, &A, &B, &C)>().exclude::<(&C, &D)>(), 7, 12, |(e, ..), s| e, true);
    each!(m, w.query_all::<(Entity, &A)>().include::<&B>().exclude::<&B>(), 3, 2, |(e, _), s| e, true);
    let mut n = 0;
    w.query_all::<&A>().exclude::<Entity>().for_each(|_| n += 1);
    w.query_all::<(&A, &B)>().exclude::<(&C, Option<&D>)>().for_each(|_| n += 1);
    w.query_all::<(&A, &B)>().exclude::<(Entity, &C)>().for_each(|_| n += 1);
    check(n == 0, 688);
    note_state(m);
    reach(1);
}

/// Slices of the same; `$e` gives the entities of a slice.
macro_rules! cut {
    ($m:expr, $q:expr, $need:expr, $not:expr, |$p:pat_param, $i:ident, $s:ident| $e:expr, [$($x:ident)*], $ok:expr) => {{
        let m = $m;
        let (need, not): (u8, u8) = ($need, $not);
        let mut q = $q;
        if let Some($p) = q.slice() {
            let es: &[Entity] = $e;
            check(es.len() == m.count(need, not), 690);
            $( check($x.len() == es.len(), 691); )*
            let mut seen = 0u32;
            let mut $i = 0;
            while $i < es.len() {
                let k = m.find(es[$i]);
                check(k < N && m.matches(k, need, not), 692);
                check(seen >> k & 1 == 0, 693);
                seen |= 1 << k;
                #[allow(unused)]
                let $s = &m.s[k];
                check($ok, 694);
                $i += 1;
            }
            reach(2);
        }
    }};
}

#[cfg(any(not(pick), h_c08_odd))]
#[no_mangle]
pub extern "C-unwind" fn h_c08_odd() {
    let (w, m, _) = setup();
    let (w, m) = (&w, &m);
    cut!(m, w.query_all::<(&A, Entity, &A)>(), 1, 0, |(x, e, y), i, s| e, [x y], x[i].v() == s.val[0] && y[i].v() == s.val[0]);
    cut!(m, w.query_all::<(&A, &B, &A, Entity)>(), 3, 0, |(x, b, y, e), i, s| e, [x y b],
        x[i].v() == s.val[0] && b[i].v() == s.val[1] && y[i].v() == s.val[0]);
    cut!(m, w.query_all::<(Entity, Entity, &C, &B, &A)>(), 7, 0, |(e, f, c, b, a), i, s| e, [f a b c],
        e[i] == f[i] && a[i].v() == s.val[0] && b[i].v() == s.val[1] && c[i].v() == s.val[2]);
    cut!(m, w.query_all::<(Entity, &A)>().include::<(&A, &A)>(), 1, 0, |(e, a), i, s| e, [a], a[i].v() == s.val[0]);
    cut!(m, w.query_all::<(Entity, &B)>().include::<(&A, &B)>(), 3, 0, |(e, b), i, s| e, [b], b[i].v() == s.val[1]);
    cut!(m, w.query_all::<(Entity, &A, &B)>().exclude::<(&C, &C)>(), 3, 4, |(e, a, b), i, s| e, [a b],
        a[i].v() == s.val[0] && b[i].v() == s.val[1]);
    cut!(m, w.query_all::<(Entity, &A)>().include::<(&B, &A)>().exclude::<(&D, &C, &D)>(), 3, 12, |(e, a), i, s| e, [a], a[i].v() == s.val[0]);
    cut!(m, w.query_all::<(Entity, &A)>().include::<(Entity, &B)>(), 3, 0, |(e, a), i, s| e, [a], a[i].v() == s.val[0]);
    cut!(m, w.query_all::<(Entity, &A)>().include::<(Entity, &B)>().exclude::<&C>(), 3, 4, |(e, a), i, s| e, [a], a[i].v() == s.val[0]);
    cut!(m, w.query_all::<(Entity, &B)>().include::<&mut A>(), 3, 0, |(e, b), i, s| e, [b], b[i].v() == s.val[1]);
    cut!(m, w.query_all::<(Entity, &mut A, &mut B)>().exclude::<&mut C>(), 3, 4, |(e, a, b), i, s| e, [a b],
        a[i].v() == s.val[0] && b[i].v() == s.val[1]);
    cut!(m, w.query_all::<Entity>().include::<(&A, &B, &C, &D)>(), 15, 0, |e, i, s| e, [], true);
    cut!(m, w.query_all::<Entity>().include::<&A>(), 1, 0, |e, i, s| e, [], true);
    cut!(m, w.query_all::<(Entity,)>().include::<(&A, &B)>().exclude::<&C>(), 3, 4, |(e,), i, s| e, [], true);
    // filters nothing can pass
    cut!(m, w.query_all::<(Entity, &A)>().exclude::<&A>(), 1, 1, |(e, _), i, s| e, [], true);
    cut!(m, w.query_all::<(Entity, &A, &B)>().exclude::<&B>(), 3, 2, |(e, ..), i, s| e, [], true);
    cut!(m, w.query_all::<(Entity, &A, &B, &C)>().exclude::<(&C, &D)>(), 7, 12, |(e, ..), i, s| e, [], true);
    cut!(m, w.query_all::<(Entity, &A)>().include::<&B>().exclude::<&B>(), 3, 2, |(e, _), i, s| e, [], true);
    check(w.query_all::<&A>().exclude::<Entity>().slice().map_or(true, |s| s.is_empty()), 695);
    check(w.query_all::<(&A, &B)>().exclude::<(&C, Entity)>().slice().map_or(true, |s| s.0.is_empty()), 696);
    note_state(m);
    reach(1);
}

/// Tuples naming a component twice: the last value stays, the first removal gets it.
#[cfg(any(not(pick), h_c04_dup))]
#[no_mangle]
pub extern "C-unwind" fn h_c04_dup() {
    let (mut w, mut m, _) = setup();
    let mut i = 0;
    while i < param(8, 1) {
        let k = choose(m.n as u64, 31) as usize;
        let (e, live) = (m.s[k].e, m.s[k].live);
        let (x, y, z) = (val::<A>(140), val::<A>(141), val::<B>(142));
        match choose(6, 32) {
            0 => {
                let e = w.create((A::mk(x), A::mk(y)));
                let k = m.issue(e, true, 10);
                m.put::<A>(k, y);
            }
            1 => {
                let e = w.create((A::mk(x), B::mk(z), A::mk(y)));
                let k = m.issue(e, true, 10);
                m.put::<A>(k, y);
                m.put::<B>(k, z);
            }
            2 => {
                check(w.insert(e, (A::mk(x), A::mk(y), B::mk(z))) == live, 697);
                if live {
                    m.put::<A>(k, y);
                    m.put::<B>(k, z);
                }
            }
            3 => {
                let (a, b, a2, b2) = w.remove::<(A, B, A, B)>(e);
                check(a.map(|a| a.v()) == (m.s[k].has & 1 != 0).then_some(m.s[k].val[0]), 698);
                check(b.map(|b| b.v()) == (m.s[k].has & 2 != 0).then_some(m.s[k].val[1]), 699);
                check(a2.is_none() && b2.is_none(), 689);
                m.s[k].has &= !3;
            }
            4 => {
                w.delete::<(C, A, C)>(e);
                m.s[k].has &= !5;
            }
            _ => {
                let es = {
                    let s = w.extend([(B::mk(z), A::mk(x), A::mk(y)), (B::mk(z), A::mk(y), A::mk(x))]);
                    check(s.len() == 2, 679);
                    [s[0], s[1]]
                };
                let k = m.issue(es[0], true, 10);
                m.put::<A>(k, y);
                m.put::<B>(k, z);
                let k = m.issue(es[1], true, 10);
                m.put::<A>(k, x);
                m.put::<B>(k, z);
            }
        }
        i += 1;
    }
    check_live(&w, &m);
    check_kinds(&w, &m);
    // the groups are still right
    let mut n = 0;
    w.query_all::<(&A, &B)>().exclude::<&C>().for_each(|_| n += 1);
    check(n == m.count(3, 4), 678);
    let mut n = 0;
    w.query_all::<(&A, &B, &C)>().for_each(|_| n += 1);
    check(n == m.count(7, 0), 677);
    note_state(&m);
    reach(1);
}
