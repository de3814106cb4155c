//! Worlds of many entities, so that indexes, positions and lengths leave small integer types.
use crate::model::*;
use crate::rt::*;
use alloc::vec::Vec;
use sparsey::{Entity, World};

struct One {
    e: Entity,
    live: bool,
    has: u8,
    val: [u64; 3],
}
struct Big {
    s: Vec<One>,
    /// current user of each index
    at: Vec<usize>,
}
impl Big {
    fn add(&mut self, e: Entity, has: u8, val: [u64; 3]) {
        let i = e.index as usize;
        if i < self.at.len() {
            let old = &self.s[self.at[i]];
            check(!old.live && old.e.version < e.version, 900);
            self.at[i] = self.s.len();
        } else {
            check(i == self.at.len(), 901);
            self.at.push(self.s.len());
        }
        self.s.push(One { e, live: true, has, val });
    }
    fn find(&self, e: Entity) -> &One {
        check((e.index as usize) < self.at.len(), 902);
        let s = &self.s[self.at[e.index as usize]];
        check(s.e == e && s.live, 903);
        s
    }
    fn count(&self, need: u8, not: u8) -> usize {
        let mut n = 0;
        for s in &self.s {
            n += (s.live && s.has & need == need && s.has & not == 0) as usize;
        }
        n
    }
}

fn make(w: &mut World, has: u8, v: [u64; 3]) -> Entity {
    let (a, b, c) = (A::mk(v[0]), B::mk(v[1]), C::mk(v[2]));
    match has {
        0 => w.create(()),
        1 => w.create((a,)),
        2 => w.create((b,)),
        3 => w.create((b, a)),
        4 => w.create((c,)),
        5 => w.create((a, c)),
        6 => w.create((c, b)),
        _ => w.create((a, b, c)),
    }
}

/// 2: entities, 1: operations, 4: mask of layouts
fn big(comps: bool) -> (World, Big) {
    let l = choose_layout(1);
    big_in(l, comps)
}
/// What entity `i` of `n` gets.
fn pattern(i: usize, n: usize, comps: bool) -> (u8, [u64; 3]) {
    const SETS: [u8; 8] = [3, 1, 5, 6, 2, 0, 3, 4];
    let every = if n > 4096 { 1023 } else { 15 };
    // nearly all entities have all components, so that every list and group gets long
    let has = match comps {
        true if i & every == 5 => SETS[i / (every + 1) & 7],
        true => 7,
        false => 0,
    };
    (has, [i as u64 * 3, i as u64 * 5 + 1, (i & 0xfff) as u64])
}
fn fill(w: &mut World, comps: bool) -> Big {
    let n = param(2, 300) as usize;
    let mut b = Big { s: Vec::with_capacity(n + 8), at: Vec::with_capacity(n + 8) };
    let mut i = 0;
    while i < n {
        let (has, val) = pattern(i, n, comps);
        let e = make(w, has, val);
        b.add(e, has, val);
        i += 1;
    }
    b
}
fn big_in(l: u64, comps: bool) -> (World, Big) {
    let mut w = world(l);
    let mut b = fill(&mut w, comps);
    let mut j = 0;
    while j < param(1, 1) {
        step(&mut w, &mut b, comps);
        j += 1;
    }
    (w, b)
}

fn step(w: &mut World, b: &mut Big, comps: bool) {
    let n = param(2, 300) as usize;
    // where small integer types end, or at either end of the lists
    let picks = if n > 65536 { [65535, 65536, n - 1, 256] } else { [255, 256, n - 1, 0] };
    let k = picks[choose(4, 50) as usize];
    let v = [val::<A>(150), val::<B>(151), val::<C>(152)];
    match choose(if comps { 5 } else { 3 }, 51) {
        0 => {
            check(w.destroy(b.s[k].e) == b.s[k].live, 904);
            b.s[k].live = false;
            reach(2);
        }
        1 => {
            // a reused index
            check(w.destroy(b.s[k].e) == b.s[k].live, 905);
            b.s[k].live = false;
            let has = if comps { 7 } else { 0 };
            let e = make(w, has, v);
            b.add(e, has, v);
        }
        2 => {
            let e = w.create_atomic();
            check(!w.contains_entity(e), 906);
            w.maintain();
            b.add(e, 0, v);
        }
        3 => {
            let (x, y) = w.remove::<(A, B)>(b.s[k].e);
            let s = &mut b.s[k];
            check(x.map(|x| x.v()) == (s.live && s.has & 1 != 0).then_some(s.val[0]), 907);
            check(y.map(|y| y.v()) == (s.live && s.has & 2 != 0).then_some(s.val[1]), 908);
            s.has &= !3;
        }
        _ => {
            let s = &mut b.s[k];
            check(w.insert(s.e, (C::mk(v[2]), A::mk(v[0]))) == s.live, 909);
            if s.live {
                s.has |= 5;
                s.val[0] = v[0];
                s.val[2] = v[2];
            }
        }
    }
}

#[cfg(any(not(pick), h_c02_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c02_big() {
    let (w, b) = big(false);
    check(w.entities().len() == b.count(0, 0), 910);
    let mut seen: Vec<bool> = Vec::new();
    seen.resize(b.at.len(), false);
    for &e in w.entities() {
        let _ = b.find(e);
        check(!seen[e.index as usize], 911);
        seen[e.index as usize] = true;
    }
    for s in &b.s {
        check(w.contains_entity(s.e) == s.live, 912);
    }
    note(w.entities().len() as u64);
    reach(1);
}

fn views<K: Kind>(w: &World, b: &Big) {
    let v = w.borrow::<K>();
    let bit = 1u8 << K::IX;
    let n = b.count(bit, 0);
    check(v.len() == n && v.entities().len() == n && v.as_slice().len() == n, 920);
    for s in &b.s {
        let has = s.live && s.has & bit != 0;
        match v.get(s.e) {
            Some(x) => check(has && x.v() == s.val[K::IX], 921),
            None => check(!has, 922),
        }
    }
    let mut i = 0;
    while i < n {
        check(v.as_slice()[i].v() == b.find(v.entities()[i]).val[K::IX], 923);
        i += 1;
    }
}

fn all_views(w: &World, b: &Big) {
    views::<A>(w, b);
    views::<B>(w, b);
    views::<C>(w, b);
}

#[cfg(any(not(pick), h_c04_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c04_big() {
    let (w, b) = big(true);
    all_views(&w, &b);
    note(w.entities().len() as u64);
    reach(1);
}

fn queries(w: &World, b: &Big) {
    macro_rules! each {
        ($q:expr, $need:expr, $not:expr, $id:expr; |$p:pat_param, $s:ident| $e:expr, $ok:expr) => {{
            let (need, not): (u8, u8) = ($need, $not);
            let mut seen: Vec<bool> = Vec::new();
            seen.resize(b.at.len(), false);
            let mut n = 0;
            for $p in $q.iter() {
                let $s = b.find($e);
                check($s.has & need == need && $s.has & not == 0, $id);
                let i = $e.index as usize;
                check(!seen[i] && $ok, $id + 1);
                seen[i] = true;
                n += 1;
            }
            check(n == b.count(need, not), $id + 2);
        }};
    }
    let o = |s: &One, i: usize| (s.has >> i & 1 != 0).then_some(s.val[i]);
    each!(w.query_all::<(Entity, &A)>(), 1, 0, 930; |(e, a), s| e, a.v() == s.val[0]);
    each!(w.query_all::<(Entity, &A, &B)>(), 3, 0, 933; |(e, a, b), s| e, a.v() == s.val[0] && b.v() == s.val[1]);
    each!(w.query_all::<(Entity, &A, &B)>().exclude::<&C>(), 3, 4, 936; |(e, a, b), s| e, a.v() == s.val[0] && b.v() == s.val[1]);
    each!(w.query_all::<(Entity, &C, Option<&B>)>().include::<&A>(), 5, 0, 939; |(e, c, b), s| e,
        c.v() == s.val[2] && b.map(|b| b.v()) == o(s, 1));
    each!(w.query_all::<(Entity, &A)>().exclude::<&B>(), 1, 2, 942; |(e, a), s| e, a.v() == s.val[0]);
}

#[cfg(any(not(pick), h_c06_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c06_big() {
    let (w, b) = big(true);
    queries(&w, &b);
    note(w.entities().len() as u64);
    reach(1);
}

/// Number of the four queries that have slices.
fn slices(w: &World, b: &Big) -> usize {
    let mut got = 0;
    macro_rules! cut {
        ($q:expr, $need:expr, $not:expr; $(($x:ident $ix:expr))*) => {{
            if let Some((es, $($x,)*)) = $q.slice() {
                check(es.len() == b.count($need, $not), 950);
                $( check($x.len() == es.len(), 951); )*
                let mut seen: Vec<bool> = Vec::new();
                seen.resize(b.at.len(), false);
                let mut i = 0;
                while i < es.len() {
                    let s = b.find(es[i]);
                    check(s.has & $need == $need && s.has & $not == 0, 952);
                    check(!seen[es[i].index as usize], 953);
                    seen[es[i].index as usize] = true;
                    $( check($x[i].v() == s.val[$ix], 954); )*
                    i += 1;
                }
                got += 1;
            }
        }};
    }
    cut!(w.query_all::<(Entity, &A)>(), 1, 0; (a 0));
    cut!(w.query_all::<(Entity, &A, &B)>(), 3, 0; (a 0) (b 1));
    cut!(w.query_all::<(Entity, &B, &A)>().exclude::<&C>(), 3, 4; (b 1) (a 0));
    cut!(w.query_all::<(Entity, &C, &A)>().include::<&B>(), 7, 0; (c 2) (a 0));
    check(got >= 1, 955);
    got
}

#[cfg(any(not(pick), h_c08_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c08_big() {
    let (w, b) = big(true);
    if slices(&w, &b) == 4 {
        reach(3);
    }
    note(w.entities().len() as u64);
    reach(1);
}

/// As `living` for every handle, by single-entity queries.
fn singles(w: &World, b: &Big) {
    let mut q = w.query_one::<(&A, Option<&B>)>().exclude::<&C>();
    let mut r = w.query_one::<(&C, Option<&A>)>();
    for s in &b.s {
        let has = |m: u8| s.live && s.has & m == m;
        check(q.contains(s.e) == (has(1) && !has(4)), 960);
        match q.get(s.e) {
            Some((x, y)) => {
                check(has(1) && !has(4) && x.v() == s.val[0], 961);
                check(y.map(|y| y.v()) == has(2).then_some(s.val[1]), 962);
            }
            None => check(!has(1) || has(4), 963),
        }
        match r.get(s.e) {
            Some((x, y)) => {
                check(has(4) && x.v() == s.val[2], 964);
                check(y.map(|y| y.v()) == has(1).then_some(s.val[0]), 965);
            }
            None => check(!has(4), 966),
        }
    }
}

#[cfg(any(not(pick), h_c07_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c07_big() {
    let (w, b) = big(true);
    singles(&w, &b);
    note(w.entities().len() as u64);
    reach(1);
}

/// Another layout, in which all the same holds.
#[cfg(any(not(pick), h_c10_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c10_big() {
    let (mut w, mut b) = big(true);
    let l = choose(LAYOUTS, 60);
    assume(param(6, 255) >> l & 1 == 1);
    w.set_layout(&layout(l));
    check(w.entities().len() == b.count(0, 0), 970);
    let mut j = 0;
    while j < param(5, 1) {
        step(&mut w, &mut b, true);
        j += 1;
    }
    all_views(&w, &b);
    queries(&w, &b);
    let got = slices(&w, &b);
    if l == 2 {
        check(got == 4, 971);
        reach(3);
    }
    note(w.entities().len() as u64);
    reach(1);
}

/// The same in a world without groups and in one with.
#[cfg(any(not(pick), h_c05_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c05_big() {
    let l = choose_layout(1);
    let (w, b) = big_in(l, true);
    all_views(&w, &b);
    queries(&w, &b);
    singles(&w, &b);
    note(w.entities().len() as u64);
    reach(1);
}

fn nothing(w: &World, b: &Big) {
    check(w.is_empty() && w.entities().is_empty(), 972);
    check(w.borrow::<A>().is_empty() && w.borrow::<B>().is_empty() && w.borrow::<C>().is_empty(), 973);
    check(w.query_all::<(&A, &B)>().iter().count() == 0 && w.query_all::<&C>().iter().count() == 0, 974);
    for s in &b.s {
        check(!w.contains_entity(s.e) && !w.contains::<&A>(s.e) && !w.contains::<&C>(s.e), 975);
    }
}

/// clear or reset, then as many entities again.
#[cfg(any(not(pick), h_c14_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c14_big() {
    let (mut w, mut b) = big(true);
    let mut n = choose(3, 61) * 150;
    while n > 0 {
        let e = w.create_atomic();
        check(!w.contains_entity(e), 976);
        b.s.push(One { e, live: false, has: 0, val: [0; 3] });
        n -= 1;
    }
    if flip(62) {
        w.reset();
        nothing(&w, &b);
        b = Big { s: Vec::new(), at: Vec::new() };
        reach(2);
    } else {
        w.clear();
        nothing(&w, &b);
        for s in &mut b.s {
            s.live = false;
        }
    }
    w.maintain();
    nothing(&w, &b);
    // every index may come back, none of the handles
    let old = b.s.len();
    let mut top = 0;
    for s in &b.s {
        top = top.max(s.e.index as usize + 1);
    }
    let n = param(2, 300) as usize;
    let mut i = 0;
    while i < n {
        let (has, val) = pattern(i, n, true);
        let e = make(&mut w, has, val);
        if old == 0 {
            check(e.index as usize == i && e.version == sparsey::entity::Version::FIRST, 977);
        }
        // a fresh index, or an earlier one with a newer version
        if (e.index as usize) < top {
            for s in &b.s {
                check(s.e.index != e.index || s.e.version < e.version, 978);
            }
        }
        while b.at.len() <= e.index as usize {
            b.at.push(usize::MAX);
        }
        b.at[e.index as usize] = b.s.len();
        b.s.push(One { e, live: true, has, val });
        i += 1;
    }
    all_views(&w, &b);
    queries(&w, &b);
    let _ = slices(&w, &b);
    note(w.entities().len() as u64);
    reach(1);
}

/// extend by many, against creating each.
#[cfg(any(not(pick), h_c15_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c15_big() {
    let (mut w, mut b) = big(true);
    let n = param(5, 300) as usize;
    let hint = flip(63);
    let first = w.entities().len();
    let it = (0..n).map(|i| (B::mk(i as u64 * 7), A::mk(i as u64 * 11), C::mk(i as u64)));
    let es: Vec<Entity> = if hint { w.extend(it).to_vec() } else { w.extend(it.filter(|_| true)).to_vec() };
    check(es.len() == n && w.entities().len() == first + n, 980);
    for (i, &e) in es.iter().enumerate() {
        check(w.entities()[first + i] == e, 981);
        b.add(e, 7, [i as u64 * 11, i as u64 * 7, (i & 0xffff) as u64]);
    }
    check(es.windows(2).all(|x| x[0] != x[1]), 982);
    all_views(&w, &b);
    queries(&w, &b);
    if slices(&w, &b) == 4 {
        reach(3);
    }
    note(w.entities().len() as u64);
    reach(1);
}

/// Writing through every kind of exclusive access.
#[cfg(any(not(pick), h_c21_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c21_big() {
    let (w, mut b) = big(true);
    all_views(&w, &b);
    let d = sym(8, 64);
    {
        let mut v = w.borrow_mut::<A>();
        let how = choose(3, 65);
        let mut i = 0;
        while i < b.s.len() {
            let s = &mut b.s[i];
            if s.live && s.has & 1 != 0 {
                s.val[0] = (i as u64) << 8 | d;
                let x = A::mk(s.val[0]);
                match how {
                    0 => *v.get_mut(s.e).unwrap() = x,
                    1 => v[s.e] = x,
                    _ => {
                        let mut p = 0;
                        while v.entities()[p] != s.e {
                            p += 1;
                        }
                        v.as_mut_slice()[p] = x;
                        // far enough
                        if i > 40 && i + 8 < b.s.len() {
                            i = b.s.len() - 8;
                        }
                    }
                }
            } else if how < 2 {
                check(v.get_mut(s.e).is_none(), 984);
            }
            i += 1;
        }
    }
    all_views(&w, &b);
    note(w.entities().len() as u64);
    reach(1);
}

/// Destroyed in one of 3 orders, then immediate and deferred creation.
fn reuse(id: u32) {
    let mut w = world(0);
    let mut b = fill(&mut w, false);
    let n = b.s.len();
    let many = n > 4096;
    let (from, by) = [(0, 1), (n - 1, n - 1), (0, 7)][choose(if many { 1 } else { 3 }, 66) as usize];
    // `by` and `n` have no common divisor
    let gone = n - if many { 1 } else { choose(3, 67) as usize };
    let mut i = 0;
    let mut k = from;
    while i < gone {
        check(w.destroy(b.s[k].e), id);
        b.s[k].live = false;
        k = (k + by) % n;
        i += 1;
    }
    let deferred = [0, 1, gone / 2, gone, gone + 2][choose(5, 68) as usize];
    let mut late: Vec<Entity> = Vec::new();
    let mut i = 0;
    while i < deferred {
        let e = w.create_atomic();
        check((e.index as usize) < n || i >= gone, id + 1);
        check(!w.contains_entity(e), id + 2);
        late.push(e);
        i += 1;
    }
    while i < gone {
        let e = w.create(());
        check((e.index as usize) < n, id + 3);
        b.add(e, 0, [0; 3]);
        i += 1;
    }
    w.maintain();
    for &e in &late {
        check(w.contains_entity(e), id + 4);
        b.add(e, 0, [0; 3]);
    }
    let e = w.create(());
    check(e.index as usize == n + deferred.saturating_sub(gone), id + 5);
    b.add(e, 0, [0; 3]);
    check(w.entities().len() == b.count(0, 0), id + 6);
    for s in &b.s {
        check(w.contains_entity(s.e) == s.live, id + 7);
    }
    note(w.entities().len() as u64);
    reach(1);
}
#[cfg(any(not(pick), h_c22_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c22_big() {
    reuse(1000)
}
#[cfg(any(not(pick), h_c01_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c01_big() {
    reuse(1010)
}

// ---------------- ownership ----------------

/// How often each value was dropped.
static mut DROPS: [u8; 2048] = [0; 2048];
pub struct P(alloc::boxed::Box<u16>);
pub struct Q(u16);
fn gone(i: u16) {
    unsafe {
        let c = DROPS[i as usize];
        check(c == 0, 990);
        DROPS[i as usize] = 1;
    }
}
impl Drop for P {
    fn drop(&mut self) {
        gone(*self.0)
    }
}
impl Drop for Q {
    fn drop(&mut self) {
        gone(self.0)
    }
}

#[cfg(any(not(pick), h_c11_big))]
#[no_mangle]
pub extern "C-unwind" fn h_c11_big() {
    let base = live();
    let n = param(2, 300) as usize;
    let p = |i: usize| P(alloc::boxed::Box::new(2 * i as u16));
    let q = |i: usize| Q(2 * i as u16 + 1);
    let mut expect: Vec<u8> = Vec::new();
    expect.resize(2 * n + 8, 0);
    {
        let mut b = World::builder();
        if flip(1) {
            b.add_group::<(P, Q)>();
        }
        b.register::<P>().register::<Q>();
        let mut w = b.build();
        let mut es = Vec::new();
        let mut i = 0;
        while i < n {
            es.push(if i % 50 == 7 { w.create((p(i),)) } else { w.create((q(i), p(i))) });
            if i % 50 == 7 {
                drop(q(i));
                expect[2 * i + 1] = 1;
            }
            i += 1;
        }
        let k = [0, 255, 256, n - 1][choose(4, 50) as usize];
        let how = choose(8, 51);
        match how {
            0 => drop(w.destroy(es[k])),
            1 => drop(w.remove::<(Q, P)>(es[k])),
            2 => w.delete::<(P, Q)>(es[k]),
            3 => {
                drop(w.insert(es[k], (p(n), q(n))));
            }
            4 => w.clear(),
            5 => w.reset(),
            6 => {
                let mut gl = sparsey::component::GroupLayout::default();
                gl.add_group::<(Q, P)>();
                w.set_layout(&gl);
            }
            _ => {
                for i in 0..n {
                    w.delete::<(Q,)>(es[i * 7 % n]);
                }
                reach(2);
            }
        }
        match how {
            0..=3 => {
                expect[2 * k] = 1;
                expect[2 * k + 1] = 1;
            }
            4 | 5 => (0..2 * n).for_each(|i| expect[i] = 1),
            7 => (0..n).for_each(|i| expect[2 * i + 1] = 1),
            _ => {}
        }
        for i in 0..2 * n + 2 {
            check(unsafe { DROPS[i] } == expect[i], 991);
        }
        if how == 3 {
            check(w.query_one::<&P>().map(es[k], |p| *p.0) == Some(2 * n as u16), 992);
        }
        if how != 3 {
            drop(p(n));
            drop(q(n));
        }
        note(how);
        drop(w);
        drop(es);
    }
    for i in 0..2 * n + 2 {
        check(unsafe { DROPS[i] } == 1, 993);
    }
    drop(expect);
    check(live() == base, 994);
    reach(1);
}
