//! C06, C07, C08: queries against the model.
use crate::model::*;
use crate::rt::*;
use sparsey::{Entity, World};

pub const ALL: u64 = 0;

/// Is `need`/`not` (component sets) a query that must be available as slices in layout `l`?
/// One component alone, or exactly a whole group, or a group without the single component
/// that the next group of its family adds.
pub fn must_slice(l: u64, need: u8, not: u8) -> bool {
    let fam: &[&[u8]] = match l {
        0 => &[],
        1 => &[&[3]],
        2 => &[&[3, 7]],
        3 => &[&[7]],
        4 => &[&[3, 15]],
        5 => &[&[3], &[12]],
        6 => &[&[6, 7, 15]],
        7 => &[&[15]],
        _ => &[],
    };
    if not == 0 && need.count_ones() == 1 {
        return true;
    }
    for f in fam {
        for (i, &g) in f.iter().enumerate() {
            if need == g && not == 0 {
                return true;
            }
            if i + 1 < f.len() && need == g && not == f[i + 1] & !g && not.count_ones() == 1 {
                return true;
            }
        }
    }
    false
}

#[macro_export]
macro_rules! mask {
    ($($T:ident $t:ident),*) => { (0u8 $(| 1 << <$T as Kind>::IX)*) };
}

/// Iteration through next() and fold(), with size hints.
#[macro_export]
macro_rules! q_iter {
    ($w:expr, $m:expr; [$($G:ident $g:ident),*] [$($O:ident $o:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        let expect = m.count(need, not);
        let mut q = w.query_all::<(Entity, $(&$G,)* $(Option<&$O>,)*)>()
            .include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
        let mut seen = 0u32;
        let mut n = 0usize;
        let mut one = |item: (Entity, $(&$G,)* $(Option<&$O>,)*)| {
            let (e, $($g,)* $($o,)*) = item;
            let k = m.find(e);
            check(k < N, 80);
            check(m.matches(k, need, not), 81);
            check(seen >> k & 1 == 0, 82);
            seen |= 1 << k;
            n += 1;
            $( check($g.v() == m.s[k].val[<$G as Kind>::IX], 83); )*
            $(
                let h = m.s[k].has >> <$O as Kind>::IX & 1 == 1;
                check($o.is_some() == h, 84);
                if let Some(o) = $o {
                    check(o.v() == m.s[k].val[<$O as Kind>::IX], 85);
                }
            )*
        };
        {
            let mut it = q.iter();
            let mut left = expect;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= left, 86);
                check(hi.map_or(true, |h| h >= left), 87);
                match it.next() {
                    Some(x) => {
                        check(left > 0, 88);
                        left -= 1;
                        one(x);
                    }
                    None => break,
                }
            }
            check(left == 0, 89);
            check(it.next().is_none(), 90);
        }
        check(n == expect, 91);
        note(seen as u64);
        let first = seen;
        seen = 0;
        n = 0;
        let mut one = |item: (Entity, $(&$G,)* $(Option<&$O>,)*)| {
            let (e, $($g,)* $($o,)*) = item;
            let k = m.find(e);
            check(k < N && seen >> k & 1 == 0, 92);
            seen |= 1 << k;
            n += 1;
            $( check($g.v() == m.s[k].val[<$G as Kind>::IX], 93); )*
            $(
                check($o.is_some() == (m.s[k].has >> <$O as Kind>::IX & 1 == 1), 94);
                if let Some(o) = $o {
                    check(o.v() == m.s[k].val[<$O as Kind>::IX], 95);
                }
            )*
        };
        // partly consumed iterator, then fold
        {
            let mut it = q.iter();
            if expect > 1 {
                if let Some(x) = it.next() {
                    one(x);
                }
            }
            it.for_each(&mut one);
        }
        check(n == expect && seen == first, 96);
        let mut cnt = 0usize;
        q.for_each(|_| cnt += 1);
        check(cnt == expect, 97);
        let mut cnt = 0usize;
        for _ in &mut q {
            cnt += 1;
        }
        check(cnt == expect, 98);
    }};
}

/// Mutable items alias the stored values: write through them, read back through views.
#[macro_export]
macro_rules! q_mut {
    ($w:expr, $m:expr; [$($G:ident $g:ident),*] [$($O:ident $o:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &mut M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        {
            let mut q = w.query_all::<(Entity, $(&mut $G,)* $(Option<&mut $O>,)*)>()
                .include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
            for (e, $($g,)* $($o,)*) in q.iter() {
                let k = m.find(e);
                check(k < N, 100);
                $( check($g.v() == m.s[k].val[<$G as Kind>::IX], 101);
                   let nv = val::<$G>(120);
                   *$g = <$G as Kind>::mk(nv);
                   m.s[k].val[<$G as Kind>::IX] = nv; )*
                $( if let Some(o) = $o {
                    check(o.v() == m.s[k].val[<$O as Kind>::IX], 102);
                    let nv = val::<$O>(121);
                    *o = <$O as Kind>::mk(nv);
                    m.s[k].val[<$O as Kind>::IX] = nv;
                } )*
            }
            let mut n = 0;
            q.for_each(|_| n += 1);
            check(n == m.count(need, not), 103);
        }
        check_kinds(w, m);
    }};
}

/// Queries of one entity, for every known handle and an arbitrary one.
#[macro_export]
macro_rules! q_one {
    ($w:expr, $m:expr, $e:expr; [$($G:ident $g:ident),*] [$($O:ident $o:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        let mut q = w.query_one::<(Entity, $(&$G,)* $(Option<&$O>,)*)>()
            .include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
        let mut k = 0;
        while k < m.n {
            let e = m.s[k].e;
            let expect = m.matches(k, need, not);
            check(q.contains(e) == expect, 110);
            match q.get(e) {
                Some((e2, $($g,)* $($o,)*)) => {
                    check(expect, 111);
                    check(e2 == e, 112);
                    $( check($g.v() == m.s[k].val[<$G as Kind>::IX], 113); )*
                    $(
                        check($o.is_some() == (m.s[k].has >> <$O as Kind>::IX & 1 == 1), 114);
                        if let Some(o) = $o {
                            check(o.v() == m.s[k].val[<$O as Kind>::IX], 115);
                        }
                    )*
                }
                None => check(!expect, 116),
            }
            check(q.map(e, |x| x.0) == expect.then_some(e), 117);
            k += 1;
        }
        if let Some(e) = $e {
            let mut expect = false;
            let mut k = 0;
            while k < m.n {
                expect |= (bits(m.s[k].e) == bits(e)) & m.matches(k, need, not);
                k += 1;
            }
            check(q.contains(e) == expect, 118);
            check(q.get(e).is_some() == expect, 119);
        }
        drop(q);
        let mut k = 0;
        while k < m.n {
            check(w.contains::<($(&$G,)* $(&$I,)*)>(m.s[k].e) == m.matches(k, need, 0), 104);
            k += 1;
        }
    }};
}

/// Slices: complete, aligned with the entities, and present whenever promised.
#[macro_export]
macro_rules! q_slice {
    ($w:expr, $m:expr, $l:expr; [$($G:ident $g:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        let mut q = w.query_all::<(Entity, $(&$G,)*)>().include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
        match q.slice() {
            Some((es, $($g,)*)) => {
                check(es.len() == m.count(need, not), 130);
                $( check($g.len() == es.len(), 131); )*
                let mut seen = 0u32;
                let mut i = 0;
                while i < es.len() {
                    let k = m.find(es[i]);
                    check(k < N, 132);
                    check(m.matches(k, need, not), 133);
                    check(seen >> k & 1 == 0, 134);
                    seen |= 1 << k;
                    $( check($g[i].v() == m.s[k].val[<$G as Kind>::IX], 135); )*
                    i += 1;
                }
                note(seen as u64);
                reach(if not != 0 { 3 } else { 2 });
            }
            None => {
                check(!must_slice($l, need, not), 136);
                reach(4);
            }
        }
    }};
}

/// Mutable slices alias the stored values.
#[macro_export]
macro_rules! q_slice_mut {
    ($w:expr, $m:expr, $l:expr; [$($G:ident $g:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &mut M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        let mut q = w.query_all::<(Entity, $(&mut $G,)*)>().include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
        match q.slice() {
            Some((es, $($g,)*)) => {
                check(es.len() == m.count(need, not), 138);
                $( check($g.len() == es.len(), 139); )*
                let mut seen = 0u32;
                let mut i = 0;
                while i < es.len() {
                    let k = m.find(es[i]);
                    check(k < N, 140);
                    check(m.matches(k, need, not), 142);
                    check(seen >> k & 1 == 0, 143);
                    seen |= 1 << k;
                    $( check($g[i].v() == m.s[k].val[<$G as Kind>::IX], 141);
                       let nv = val::<$G>(122);
                       $g[i] = <$G as Kind>::mk(nv);
                       m.s[k].val[<$G as Kind>::IX] = nv; )*
                    i += 1;
                }
            }
            None => check(!must_slice($l, need, not), 144),
        }
        drop(q);
        check_kinds(w, m);
    }};
}

fn setup() -> (World, M, u64) {
    let l = choose_layout(1);
    let mut w = world(l);
    let mut m = M::new();
    populate(&mut w, &mut m);
    comp_ops(&mut w, &mut m);
    (w, m, l)
}

/// Iteration of many query shapes.
#[cfg(any(not(pick), h_c06_iter))]
#[no_mangle]
pub extern "C-unwind" fn h_c06_iter() {
    let (w, m, _) = setup();
    let (w, m) = (&w, &m);
    note_state(m);
    q_iter!(w, m; [A a] [] [] []);
    q_iter!(w, m; [A a, B b] [] [] []);
    q_iter!(w, m; [B b, A a] [] [] [C c]);
    q_iter!(w, m; [A a] [C c] [B b] []);
    q_iter!(w, m; [A a, B b, C c] [] [] []);
    q_iter!(w, m; [A a] [B b] [] [C c]);
    q_iter!(w, m; [C c] [] [A a] [B b]);
    q_iter!(w, m; [] [] [B b, A a] []);
    q_iter!(w, m; [] [C c] [A a, B b] []);
    q_iter!(w, m; [A a, B b] [D d] [] [C c, D d]);
    q_iter!(w, m; [C c, D d] [A a] [] []);
    q_iter!(w, m; [A a, B b, C c, D d] [] [] []);
    q_iter!(w, m; [A a, C c] [] [B b] [D d]);
    q_iter!(w, m; [C c, B b] [] [] [A a]);
    q_iter!(w, m; [B b] [D d] [C c] [A a]);
    q_iter!(w, m; [B b] [] [A a] [D d, C c]);
    q_iter!(w, m; [A a, B b] [] [] [D d]);
    q_iter!(w, m; [D d] [] [] []);
    q_iter!(w, m; [D d] [] [] [A a]);
    q_iter!(w, m; [A a] [] [A2 a] []);
    reach(1);
}
// the same component read twice
use crate::model::A as A2;

/// Mutable iteration.
#[cfg(any(not(pick), h_c06_mut))]
#[no_mangle]
pub extern "C-unwind" fn h_c06_mut() {
    let (w, mut m, _) = setup();
    let m = &mut m;
    let w = &w;
    note_state(m);
    match choose(8, 30) {
        0 => q_mut!(w, m; [A a] [] [] []),
        1 => q_mut!(w, m; [A a, B b] [C c] [] []),
        2 => q_mut!(w, m; [B b] [] [A a] [C c]),
        3 => q_mut!(w, m; [C c] [B b, A a] [] []),
        4 => q_mut!(w, m; [A a, B b, C c] [D d] [] []),
        5 => q_mut!(w, m; [D d, C c] [] [] [A a]),
        6 => q_mut!(w, m; [B b, C c] [D d] [] [A a]),
        _ => q_mut!(w, m; [C c, A a, D d, B b] [] [] []),
    }
    reach(1);
}

/// Queries of single parts, of entities alone and of nothing.
#[cfg(any(not(pick), h_c06_bare))]
#[no_mangle]
pub extern "C-unwind" fn h_c06_bare() {
    let (w, m, _) = setup();
    let w = &w;
    let mut n = 0;
    let mut sum = 0u64;
    let mut want = 0u64;
    w.for_each::<&A>(|a| {
        n += 1;
        sum = sum.wrapping_add(a.v());
    });
    let mut k = 0;
    while k < m.n {
        if m.matches(k, 1, 0) {
            want = want.wrapping_add(m.s[k].val[0]);
        }
        k += 1;
    }
    check(n == m.count(1, 0), 150);
    check(sum == want, 151);
    let mut n = 0;
    w.for_each::<&mut B>(|_| n += 1);
    check(n == m.count(2, 0), 152);
    let mut n = 0;
    w.query_all::<&A>().include::<&B>().for_each(|_| n += 1);
    check(n == m.count(3, 0), 153);
    let mut n = 0;
    w.query_all::<&A>().exclude::<&B>().for_each(|_| n += 1);
    check(n == m.count(1, 2), 154);
    // filters in the other order
    let mut n = 0;
    w.query_all::<&A>().exclude::<&C>().include::<&B>().for_each(|_| n += 1);
    check(n == m.count(3, 4), 155);
    let mut n = 0;
    let mut seen = 0u32;
    w.query_all::<Entity>().include::<&C>().for_each(|e| {
        n += 1;
        seen |= 1 << m.find(e);
    });
    check(n == m.count(4, 0) && seen.count_ones() as usize == n, 156);
    let mut n = 0;
    w.query_all::<()>().include::<(&A, &B)>().exclude::<&C>().for_each(|_| n += 1);
    check(n == m.count(3, 4), 157);
    let mut n = 0;
    w.query_all::<Option<&A>>().include::<&B>().for_each(|a| n += a.is_some() as usize);
    check(n == m.count(3, 0), 158);
    let mut n = 0;
    let mut some = 0;
    w.query_all::<(Option<&mut C>, &B, Entity, Option<&A>)>().include::<&A>().for_each(|(c, b, e, a)| {
        let k = m.find(e);
        check(k < N && m.matches(k, 3, 0), 159);
        check(b.v() == m.s[k].val[1], 160);
        check(a.is_some() && a.unwrap().v() == m.s[k].val[0], 161);
        n += 1;
        some += c.is_some() as usize;
    });
    check(n == m.count(3, 0) && some == m.count(7, 0), 162);
    note_state(&m);
    note(n as u64);
    reach(1);
}

/// Queries of one entity.
#[cfg(any(not(pick), h_c07_one))]
#[no_mangle]
pub extern "C-unwind" fn h_c07_one() {
    let (w, m, _) = setup();
    let (w, m) = (&w, &m);
    note_state(m);
    let e = any_entity(200);
    match choose(12, 30) {
        0 => q_one!(w, m, Some(e); [A a] [] [] []),
        1 => q_one!(w, m, Some(e); [A a, B b] [] [] []),
        2 => q_one!(w, m, Some(e); [A a] [C c] [B b] []),
        3 => q_one!(w, m, Some(e); [A a, B b] [] [] [C c]),
        4 => q_one!(w, m, Some(e); [B b] [A a, D d] [] [C c]),
        5 => q_one!(w, m, Some(e); [] [] [A a, C c] []),
        6 => q_one!(w, m, Some(e); [] [B b] [C c] [A a]),
        7 => q_one!(w, m, Some(e); [A a, B b, C c, D d] [] [] []),
        8 => q_one!(w, m, Some(e); [D d] [] [] [A a, B b]),
        9 => q_one!(w, m, Some(e); [C c, D d] [A a] [] [B b]),
        10 => q_one!(w, m, Some(e); [C c] [] [D d, B b] []),
        _ => q_one!(w, m, Some(e); [A a] [] [A2 a] [D d]),
    }
    reach(1);
}

/// Optional parts give the component of exactly the handle asked for, or nothing.
#[cfg(any(not(pick), h_c07_opt))]
#[no_mangle]
pub extern "C-unwind" fn h_c07_opt() {
    let (w, m, _) = setup();
    let has = |k: usize, x: u32| m.s[k].live && m.s[k].has >> x & 1 == 1;
    let mut k = 0;
    while k < m.n {
        let e = m.s[k].e;
        let live = m.s[k].live;
        let r = w.query_one::<(Option<&A>, Entity, Option<&mut B>)>().map(e, |(a, e2, b)| {
            check(e2 == e, 185);
            check(a.is_some() == has(k, 0) && b.is_some() == has(k, 1), 186);
            check(a.map_or(true, |a| a.v() == m.s[k].val[0]), 187);
            check(b.map_or(true, |b| b.v() == m.s[k].val[1]), 188);
        });
        check(r.is_some() || !live, 189);
        let r = w.query_one::<Option<&C>>().map(e, |c| {
            check(c.is_some() == has(k, 2), 190);
            check(c.map_or(true, |c| c.v() == m.s[k].val[2]), 191);
        });
        check(r.is_some() || !live, 192);
        let r = w.query_one::<Option<&mut D>>().include::<Option<&A>>().map(e, |d| {
            check(d.is_some() == has(k, 3), 193);
            check(d.map_or(true, |d| d.v() == m.s[k].val[3]), 194);
        });
        check(r.is_some() || !live, 195);
        if !live {
            reach(2);
        }
        k += 1;
    }
    let e = any_entity(200);
    let mut expect = false;
    let mut k = 0;
    while k < m.n {
        expect |= (bits(m.s[k].e) == bits(e)) & has(k, 0);
        k += 1;
    }
    check(w.query_one::<Option<&A>>().get(e).flatten().is_some() == expect, 196);
    check(w.query_one::<Option<&mut A>>().get(e).flatten().is_some() == expect, 197);
    note_state(&m);
    reach(1);
}

/// Mutable queries of one entity, and single-part forms.
#[cfg(any(not(pick), h_c07_mut))]
#[no_mangle]
pub extern "C-unwind" fn h_c07_mut() {
    let (w, mut m, _) = setup();
    let mut k = 0;
    while k < m.n {
        let e = m.s[k].e;
        let has = m.s[k].has;
        let nv = val::<A>(123);
        {
            let mut q = w.query_one::<(&mut A, Option<&mut B>)>().exclude::<&C>();
            let ok = has & 1 == 1 && has & 4 == 0;
            check(q.contains(e) == ok, 170);
            let r = q.map(e, |(a, b)| {
                check(a.v() == m.s[k].val[0], 171);
                *a = A::mk(nv);
                b.map(|b| core::mem::replace(b, B::mk(nv)).v())
            });
            check(r.is_some() == ok, 172);
            if let Some(b) = r {
                check(b.is_some() == (has & 2 == 2), 173);
                m.s[k].val[0] = nv;
                if let Some(b) = b {
                    check(b == m.s[k].val[1], 174);
                    m.s[k].val[1] = nv;
                    reach(2);
                }
            }
        }
        check(w.contains::<&A>(e) == (has & 1 == 1), 175);
        check(w.contains::<(&B, &mut C)>(e) == (has & 6 == 6), 176);
        check(w.query_one::<&D>().include::<&mut A>().get(e).is_some() == (has & 9 == 9), 177);
        check(w.query_one::<&D>().exclude::<&A>().include::<&B>().contains(e) == (has & 11 == 10), 178);
        check(w.query_one::<()>().include::<&C>().exclude::<&A>().contains(e) == (has & 5 == 4), 179);
        k += 1;
    }
    check_kinds(&w, &m);
    note_state(&m);
    reach(1);
}

/// Slices of many query shapes.
#[cfg(any(not(pick), h_c08_slice))]
#[no_mangle]
pub extern "C-unwind" fn h_c08_slice() {
    let (w, m, l) = setup();
    let (w, m) = (&w, &m);
    note_state(m);
    q_slice!(w, m, l; [A a] [] []);
    q_slice!(w, m, l; [D d] [] []);
    q_slice!(w, m, l; [] [B b] []);
    q_slice!(w, m, l; [A a, B b] [] []);
    q_slice!(w, m, l; [B b] [A a] []);
    q_slice!(w, m, l; [] [A a, B b] []);
    q_slice!(w, m, l; [A a, B b] [] [C c]);
    q_slice!(w, m, l; [A a] [B b] [C c]);
    q_slice!(w, m, l; [] [B b, A a] [C c]);
    q_slice!(w, m, l; [B b, A a] [] [C c, D d]);
    q_slice!(w, m, l; [B b, A a] [] [D d]);
    q_slice!(w, m, l; [A a, B b, C c] [] []);
    q_slice!(w, m, l; [C c, A a] [B b] []);
    q_slice!(w, m, l; [A a, B b, C c] [] [D d]);
    q_slice!(w, m, l; [C c] [B b, A a] [D d]);
    q_slice!(w, m, l; [B b, C c] [] []);
    q_slice!(w, m, l; [C c, B b] [] [A a]);
    q_slice!(w, m, l; [C c] [B b] [A a, D d]);
    q_slice!(w, m, l; [C c, D d] [] []);
    q_slice!(w, m, l; [D d] [C c] []);
    q_slice!(w, m, l; [A a, B b, C c, D d] [] []);
    q_slice!(w, m, l; [D d, B b] [C c, A a] []);
    q_slice!(w, m, l; [C c, A a] [] []);
    q_slice!(w, m, l; [A a] [] [B b]);
    q_slice!(w, m, l; [A a, D d] [C c] [B b]);
    // as documented: entities only
    match w.query_all::<Entity>().include::<(&A, &B)>().slice() {
        Some(es) => {
            check(es.len() == m.count(3, 0), 180);
            for &e in es {
                let k = m.find(e);
                check(k < N && m.matches(k, 3, 0), 181);
            }
        }
        None => check(!must_slice(l, 3, 0), 182),
    }
    match w.query_all::<&C>().include::<(&A, &B)>().slice() {
        Some(cs) => {
            check(cs.len() == m.count(7, 0), 183);
            reach(5);
        }
        None => check(!must_slice(l, 7, 0), 184),
    }
    reach(1);
}

/// Mutable slices.
#[cfg(any(not(pick), h_c08_mut))]
#[no_mangle]
pub extern "C-unwind" fn h_c08_mut() {
    let (w, mut m, l) = setup();
    let (w, m) = (&w, &mut m);
    note_state(m);
    q_slice_mut!(w, m, l; [A a] [] []);
    q_slice_mut!(w, m, l; [A a, B b] [] []);
    q_slice_mut!(w, m, l; [B b, A a] [] [C c]);
    q_slice_mut!(w, m, l; [C c] [A a, B b] []);
    q_slice_mut!(w, m, l; [C c, D d] [] []);
    q_slice_mut!(w, m, l; [A a, B b, C c, D d] [] []);
    q_slice_mut!(w, m, l; [C c, B b] [] [A a]);
    q_slice_mut!(w, m, l; [A a] [B b] [C c]);
    q_slice_mut!(w, m, l; [C c, A a, B b] [] [D d]);
    q_slice_mut!(w, m, l; [B b] [] []);
    q_slice_mut!(w, m, l; [D d] [] []);
    bare_slices(w, m, l);
    reach(1);
}

/// Slices without the entity: the same as with it.
fn bare_slices(w: &World, m: &M, l: u64) {
    let mut q = w.query_all::<(Entity, &A, &B)>().exclude::<&C>();
    let full = q.slice();
    let mut r = w.query_all::<(&B, &A)>().exclude::<&C>();
    let bare = r.slice();
    check(full.is_some() == bare.is_some(), 145);
    if let (Some((es, x, y)), Some((b, a))) = (full, bare) {
        check(a.len() == es.len() && b.len() == es.len() && x.len() == es.len() && y.len() == es.len(), 146);
        let mut i = 0;
        while i < es.len() {
            check(a[i].v() == x[i].v() && b[i].v() == y[i].v(), 147);
            i += 1;
        }
    }
    drop((q, r));
    macro_rules! one {
        ($K:ident) => {{
            let ix = <$K as Kind>::IX;
            let v = w.borrow::<$K>();
            let mut q = w.query_all::<&$K>();
            match q.slice() {
                Some(s) => {
                    check(s.len() == m.count(1 << ix, 0) && s.len() == v.len(), 148);
                    let mut i = 0;
                    while i < s.len() {
                        let k = m.find(v.entities()[i]);
                        check(k < N && s[i].v() == m.s[k].val[ix] && v.as_slice()[i].v() == s[i].v(), 149);
                        i += 1;
                    }
                }
                None => check(false, 150),
            }
        }};
    }
    one!(A);
    one!(C);
    one!(D);
    let n = w.query_all::<&mut B>().slice().map(|s| s.len());
    check(n == Some(m.count(2, 0)), 151);
    let n = w.query_all::<(&mut B,)>().include::<&A>().exclude::<()>().slice().map(|s| s.0.len());
    check(if let Some(n) = n { n == m.count(3, 0) } else { !must_slice(l, 3, 0) }, 152);
    let n = w.query_all::<(&mut A, &mut B)>().exclude::<&C>().slice().map(|(a, b)| (a.len(), b.len()));
    let c = m.count(3, 4);
    check(if let Some(n) = n { n == (c, c) } else { !must_slice(l, 3, 4) }, 153);
}
