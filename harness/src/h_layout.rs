//! C09: which group layouts are accepted, and that accepted ones work.
use crate::model::*;
use crate::rt::*;
use sparsey::component::{ComponentData, GroupInfo, GroupLayout, QueryGroupInfo, ViewGroupInfo};
use sparsey::world::WorldBuilder;
use sparsey::World;

const DATA: [ComponentData; 4] =
    [ComponentData::new::<A>(), ComponentData::new::<B>(), ComponentData::new::<C>(), ComponentData::new::<D>()];

/// The groups of a layout, as accepted so far.
struct Groups {
    g: [u8; 8],
    n: usize,
}
impl Groups {
    /// Components of the family `start` belongs to (transitively connected groups).
    fn family(&self, start: u8) -> u8 {
        let mut f = start;
        let mut r = 0;
        while r < self.n {
            let mut i = 0;
            while i < self.n {
                if self.g[i] & f != 0 {
                    f |= self.g[i];
                }
                i += 1;
            }
            r += 1;
        }
        f
    }
    /// Legal: every group connected to it is contained in it or contains it, and it does not
    /// join two families.
    fn legal(&self, g: u8) -> bool {
        let f = self.family(g);
        let mut i = 0;
        while i < self.n {
            let h = self.g[i];
            if h & f != 0 && h & g != h && h & g != g {
                return false;
            }
            // two groups under g must be comparable with each other
            let mut j = 0;
            while j < i {
                let k = self.g[j];
                if h & f != 0 && k & f != 0 && h & k != h && h & k != k {
                    return false;
                }
                j += 1;
            }
            i += 1;
        }
        true
    }
    fn add(&mut self, g: u8) {
        self.g[self.n] = g;
        self.n += 1;
    }
    fn has(&self, g: u8) -> bool {
        let mut i = 0;
        while i < self.n {
            if self.g[i] == g {
                return true;
            }
            i += 1;
        }
        false
    }
    /// A group whose family has no group strictly between `g` and `g | x`.
    fn must_slice(&self, need: u8, not: u8) -> bool {
        if not == 0 {
            return need.count_ones() == 1 || self.has(need);
        }
        // the next group of the family adds exactly the one excluded component
        not.count_ones() == 1 && self.has(need) && self.has(need | not)
    }
}

/// A symbolic group listed in a symbolic order, possibly with a repetition.
fn listed(set: u8, rot: usize, rev: bool, dup: bool) -> ([ComponentData; 6], usize) {
    let mut out = [DATA[0]; 6];
    let mut n = 0;
    let mut i = 0;
    while i < 4 {
        let j = (if rev { 3 - i } else { i } + rot) % 4;
        if set >> j & 1 == 1 {
            out[n] = DATA[j];
            n += 1;
        }
        i += 1;
    }
    if dup && n > 0 {
        out[n] = out[0];
        n += 1;
    }
    (out, n)
}

/// Checks that the accepted groups give a world that works.
fn works(w: &mut World, gs: &Groups) {
    w.register::<A>();
    w.register::<B>();
    w.register::<C>();
    w.register::<D>();
    let mut m = M::new();
    // one entity for every subset that matters first, then symbolic ones
    create(w, &mut m, 1);
    create(w, &mut m, 14);
    create(w, &mut m, 15);
    create(w, &mut m, 3);
    let mut i = 0;
    while i < param(2, 1) {
        let set = choose_set(15, true, 20);
        create(w, &mut m, set);
        i += 1;
    }
    comp_ops(w, &mut m);
    check_kinds(w, &m);
    slices(w, &m, gs);
    note_state(&m);
}

macro_rules! sl {
    ($w:expr, $m:expr, $gs:expr; [$($G:ident $g:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = mask!($($G $g),*);
        let not = mask!($($X $x),*);
        let mut q = w.query_all::<(sparsey::Entity, $(&$G,)*)>().exclude::<($(&$X,)*)>();
        let mut n = 0;
        q.for_each(|(e, $($g,)*)| {
            let k = m.find(e);
            check(k < N && m.matches(k, need, not), 330);
            $( check($g.v() == m.s[k].val[<$G as Kind>::IX], 331); )*
            n += 1;
        });
        check(n == m.count(need, not), 332);
        match q.slice() {
            Some((es, $($g,)*)) => {
                check(es.len() == n, 333);
                let mut i = 0;
                while i < n {
                    let k = m.find(es[i]);
                    check(k < N && m.matches(k, need, not), 334);
                    $( check($g[i].v() == m.s[k].val[<$G as Kind>::IX], 335); )*
                    i += 1;
                }
                reach(2);
            }
            None => check(!$gs.must_slice(need, not), 336),
        }
    }};
}
fn slices(w: &World, m: &M, gs: &Groups) {
    sl!(w, m, gs; [A a, B b] []);
    sl!(w, m, gs; [A a, C c] []);
    sl!(w, m, gs; [A a, D d] []);
    sl!(w, m, gs; [B b, C c] []);
    sl!(w, m, gs; [B b, D d] []);
    sl!(w, m, gs; [C c, D d] []);
    sl!(w, m, gs; [A a, B b, C c] []);
    sl!(w, m, gs; [A a, B b, D d] []);
    sl!(w, m, gs; [A a, C c, D d] []);
    sl!(w, m, gs; [B b, C c, D d] []);
    sl!(w, m, gs; [A a, B b, C c, D d] []);
    sl!(w, m, gs; [A a, B b] [C c]);
    sl!(w, m, gs; [C c, B b] [A a]);
    sl!(w, m, gs; [C c, D d] [B b]);
    sl!(w, m, gs; [A a, D d, B b] [C c]);
    sl!(w, m, gs; [A a, C c, B b] [D d]);
    sl!(w, m, gs; [D d, C c, B b] [A a]);
    sl!(w, m, gs; [A a, C c] [B b, D d]);
    sl!(w, m, gs; [B b, D d] [A a, C c]);
}

/// Sequences of symbolic groups over four component types.
#[cfg(any(not(pick), h_c09_family))]
#[no_mangle]
pub extern "C-unwind" fn h_c09_family() {
    let mut gl = GroupLayout::default();
    let mut gs = Groups { g: [0; 8], n: 0 };
    let n = param(10, 3);
    let mut i = 0;
    while i < n {
        let set = choose(16, 50) as u8;
        let (rot, rev, dup) = if i == 0 { (0, false, false) } else { (choose(param(11, 1), 51) as usize, i == 1, i == 1) };
        let (l, len) = listed(set, rot, rev, dup);
        let want = set.count_ones() < 2 || gs.legal(set);
        let p = catch(|| gl.add_group_dyn(&l[..len]));
        check(p != want, 340);
        // a group that is refused leaves the layout as it was
        if p {
            reach(3);
        } else if set.count_ones() >= 2 && !gs.has(set) {
            gs.add(set);
        }
        i += 1;
    }
    {
        if param(12, 1) == 1 {
            let mut w = World::new(&gl);
            works(&mut w, &gs);
        }
        reach(1);
    }
    note(gs.n as u64);
}

/// The same through the typed interface and the builder.
#[cfg(any(not(pick), h_c09_typed))]
#[no_mangle]
pub extern "C-unwind" fn h_c09_typed() {
    let mut gs = Groups { g: [0; 8], n: 0 };
    let mut b = WorldBuilder::default();
    let mut i = 0;
    while i < param(10, 2) {
        let c = choose(14, 52);
        let set: u8 = [3, 5, 9, 6, 10, 12, 7, 11, 13, 14, 15, 3, 1, 15][c as usize];
        let want = set.count_ones() < 2 || gs.legal(set);
        let p = catch(|| {
            match c {
                0 => b.add_group::<(A, B)>(),
                1 => b.add_group::<(A, C)>(),
                2 => b.add_group::<(D, A)>(),
                3 => b.add_group::<(B, C)>(),
                4 => b.add_group::<(D, B)>(),
                5 => b.add_group::<(C, D)>(),
                6 => b.add_group::<(A, B, C)>(),
                7 => b.add_group::<(D, A, B)>(),
                8 => b.add_group::<(A, D, C)>(),
                9 => b.add_group::<(B, C, D)>(),
                10 => b.add_group::<(A, B, C, D)>(),
                11 => b.add_group::<(B, A, B)>(),
                12 => b.add_group::<(A, A)>(),
                _ => b.add_group::<(D, C, B, A)>(),
            };
        });
        check(p != want, 341);
        if p {
            reach(3);
        } else if set.count_ones() >= 2 && !gs.has(set) {
            gs.add(set);
        }
        i += 1;
    }
    let mut w = b.build();
    works(&mut w, &gs);
    reach(1);
}

/// Any sequence of builder calls: the last layout set, the groups added since, every type registered.
#[cfg(any(not(pick), h_c10_builder))]
#[no_mangle]
pub extern "C-unwind" fn h_c10_builder() {
    let mut gs = Groups { g: [0; 8], n: 0 };
    let mut reg = 0u8;
    let mut b = World::builder();
    let mut i = 0;
    while i < param(10, 4) {
        let c = choose(9, 60);
        match c {
            0..=2 => {
                let set: u8 = [3, 12, 7][c as usize];
                let p = catch(|| {
                    match c {
                        0 => b.add_group::<(B, A)>(),
                        1 => b.add_group_dyn(&[DATA[2], DATA[3]]),
                        _ => b.add_group::<(A, C, B)>(),
                    };
                });
                check(p != gs.legal(set), 390);
                if !p && !gs.has(set) {
                    gs.add(set);
                }
            }
            3..=5 => {
                let l = [0, 2, 5][c as usize - 3];
                b.set_layout(layout(l));
                gs.n = 0;
                if l != 0 {
                    gs.add(3);
                    gs.add(if l == 2 { 7 } else { 12 });
                    reach(2);
                }
            }
            6 => {
                b.register::<A>();
                reg |= 1;
            }
            7 => {
                b.register::<D>();
                reg |= 8;
            }
            _ => {
                b.register_dyn(DATA[2]);
                reg |= 4;
            }
        }
        i += 1;
    }
    let mut j = 0;
    while j < gs.n {
        reg |= gs.g[j];
        j += 1;
    }
    let mut w = b.build();
    let registered = |w: &World| {
        let r = w.is_registered::<A>() as u8
            | (w.is_registered::<B>() as u8) << 1
            | (w.is_registered::<C>() as u8) << 2
            | (w.is_registered::<D>() as u8) << 3;
        check(r == reg, 391);
        let mut j = 0;
        while j < 4 {
            check(w.is_registered_dyn(DATA[j].type_id()) == (reg >> j & 1 == 1), 392);
            j += 1;
        }
        check(w.is_empty() && w.entities().len() == 0, 393);
    };
    registered(&w);
    check(w.register::<B>() == (reg & 2 == 0), 394);
    works(&mut w, &gs);
    // the builder can be used again
    let mut w = b.clone().build();
    registered(&w);
    works(&mut w, &gs);
    reach(1);
}

// ---------------- limits ----------------

#[derive(Clone, Copy, PartialEq)]
pub struct X<const K: u8>(u8);

macro_rules! xs {
    ($($k:literal)*) => { [$(ComponentData::new::<X<$k>>()),*] };
}
static XS: [ComponentData; 76] = xs!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
    32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71
    72 73 74 75);

/// Groups of 15, 16 and 17 component types.
#[cfg(any(not(pick), h_c09_arity))]
#[no_mangle]
pub extern "C-unwind" fn h_c09_arity() {
    let n = 14 + choose(4, 53) as usize;
    let from = choose(3, 54) as usize;
    // listed plainly, with a smaller group first, or with repetitions
    let how = choose(3, 55);
    let mut gl = GroupLayout::default();
    if how == 1 {
        gl.add_group_dyn(&XS[from..from + 2]);
    }
    let p = catch(|| {
        if how == 2 {
            let mut l = [XS[from]; 40];
            let mut i = 0;
            while i < 40 {
                l[i] = XS[from + i * 7 % n];
                i += 1;
            }
            gl.add_group_dyn(&l);
        } else {
            gl.add_group_dyn(&XS[from..from + n]);
        }
    });
    check(p == (n > 16), 342);
    if p {
        reach(3);
        return;
    }
    let mut w = World::new(&gl);
    let mut i = 0;
    while i < 76 {
        w.register_dyn(XS[i]);
        i += 1;
    }
    // entities with all, and with all but one, of the components 0..16
    let v = sym(8, 150) as u8;
    type T16 = (X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>);
    let mk = |v: u8| -> T16 {
        (X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v), X(v))
    };
    let a = w.create(mk(1));
    w.delete::<(X<7>,)>(a);
    let b = w.create(mk(v));
    let c = w.create((X::<3>(5), X::<15>(6)));
    type Q<'a> = (
        &'a X<0>, &'a X<1>, &'a X<2>, &'a X<3>, &'a X<4>, &'a X<5>, &'a X<6>, &'a X<7>, &'a X<8>, &'a X<9>, &'a X<10>,
        &'a X<11>, &'a X<12>, &'a X<13>, &'a X<14>, &'a X<15>,
    );
    let mut cnt = 0;
    w.for_each::<Q>(|x| {
        check(x.15 .0 == v && x.0 .0 == v && x.7 .0 == v, 343);
        cnt += 1;
    });
    check(cnt == 1, 344);
    let mut q = w.query_all::<Q>();
    match q.slice() {
        Some(s) => {
            check(s.0.len() == 1 && s.15.len() == 1 && s.7[0].0 == v, 345);
            reach(2);
        }
        None => check(!(from == 0 && n == 16), 346),
    }
    drop(q);
    w.insert(a, (X::<7>(9),));
    let mut cnt = 0;
    w.for_each::<Q>(|_| cnt += 1);
    check(cnt == 2, 347);
    check(w.query_one::<(&X<3>, &X<15>)>().exclude::<&X<0>>().contains(c), 348);
    check(w.destroy(b) && !w.contains::<&X<2>>(b), 349);
    let mut cnt = 0;
    w.for_each::<Q>(|_| cnt += 1);
    check(cnt == 1, 350);
    note(n as u64);
    reach(1);
}

/// A layout of `n` groups: four chains of up to 15 groups, then pairs.
fn many(n: usize) -> GroupLayout {
    let mut gl = GroupLayout::default();
    let mut made = 0;
    let mut f = 0;
    while f < 4 {
        let mut a = 2;
        while a <= 16 && made < n {
            gl.add_group_dyn(&XS[16 * f..16 * f + a]);
            made += 1;
            a += 1;
        }
        f += 1;
    }
    let mut p = 64;
    while made < n {
        gl.add_group_dyn(&XS[p..p + 2]);
        p += 2;
        made += 1;
    }
    gl
}

/// 62 to 65 groups.
#[cfg(any(not(pick), h_c09_count))]
#[no_mangle]
pub extern "C-unwind" fn h_c09_count() {
    let n = 62 + choose(4, 56) as usize;
    let gl = many(n);
    let mut w = None;
    let panicked = catch(|| w = Some(World::new(&gl)));
    check(panicked == (n > 64), 351);
    if panicked {
        reach(3);
        return;
    }
    let mut w = w.unwrap();
    let mut i = 0;
    while i < 76 {
        w.register_dyn(XS[i]);
        i += 1;
    }
    let v = sym(8, 151) as u8;
    // the last groups: (64, 65), (66, 67), (68, 69), (70, 71)
    let a = w.create((X::<66>(1), X::<70>(1), X::<64>(1)));
    let b = w.create((X::<70>(v), X::<71>(2), X::<66>(3), X::<67>(4)));
    let c = w.create((X::<48>(3), X::<49>(v), X::<50>(5), X::<51>(6)));
    let mut cnt = 0;
    w.for_each::<(&X<70>, &X<71>)>(|(x, y)| {
        check(x.0 == v && y.0 == 2, 352);
        cnt += 1;
    });
    check(cnt == 1, 353);
    if let Some((x, y)) = w.query_all::<(&X<67>, &X<66>)>().slice() {
        check(x.len() == 1 && y.len() == 1 && y[0].0 == 3, 354);
        reach(2);
    } else {
        check(n < 62, 355);
    }
    if n == 64 {
        match w.query_all::<(&X<70>, &X<71>)>().slice() {
            Some((x, y)) => check(x.len() == 1 && x[0].0 == v && y[0].0 == 2, 356),
            None => check(false, 357),
        }
        reach(4);
    }
    match w.query_all::<(&X<48>, &X<49>, &X<50>)>().exclude::<&X<51>>().slice() {
        Some(s) => check(s.0.len() == 0, 358),
        None => check(false, 359),
    }
    w.delete::<(X<51>,)>(c);
    match w.query_all::<(&X<48>, &X<49>, &X<50>)>().exclude::<&X<51>>().slice() {
        Some(s) => check(s.0.len() == 1 && s.1[0].0 == v, 360),
        None => check(false, 361),
    }
    check(w.destroy(a) && w.destroy(b), 362);
    let mut cnt = 0;
    w.for_each::<&X<66>>(|_| cnt += 1);
    w.for_each::<&X<70>>(|_| cnt += 1);
    check(cnt == 0, 363);
    note(n as u64);
    reach(1);
}

/// set_layout of 63 to 66 groups on a populated world, which stays as it was if it panics.
#[cfg(any(not(pick), h_c10_limit))]
#[no_mangle]
pub extern "C-unwind" fn h_c10_limit() {
    type T1 = X<0>;
    type T2 = X<1>;
    type T3 = X<2>;
    type T4 = X<70>;
    type T5 = X<74>;
    let n = 63 + choose(4, 57) as usize;
    let gl = many(n);
    let mut old = GroupLayout::default();
    let l = choose(3, 58);
    if l > 0 {
        old.add_group::<(T1, T2)>();
        old.add_group::<(T4, T5)>();
    }
    if l > 1 {
        old.add_group::<(T3, T1, T2)>();
    }
    let mut w = World::new(&old);
    w.register::<T1>();
    w.register::<T2>();
    w.register::<T3>();
    w.register::<T4>();
    w.register::<T5>();
    let v = sym(8, 152) as u8;
    let a = w.create((X::<0>(1), X::<2>(2)));
    let b = w.create((X::<0>(v), X::<1>(3), X::<2>(4), X::<70>(5), X::<74>(6)));
    let c = w.create((X::<1>(7), X::<0>(8), X::<74>(9)));
    let panicked = catch(|| w.set_layout(&gl));
    check(panicked == (n > 64), 370);
    check(w.entities().len() == 3 && w.contains_entity(a) && w.contains_entity(b) && w.contains_entity(c), 371);
    check(w.is_registered::<T1>() && w.is_registered::<T3>() && w.is_registered::<T4>() && w.is_registered::<T5>(), 372);
    check(w.is_registered::<X<8>>() != panicked, 373);
    check(w.query_one::<(&T1, &T2, &T3)>().map(b, |x| x.0 .0 == v && x.1 .0 == 3 && x.2 .0 == 4) == Some(true), 374);
    check(w.query_one::<(&T4, &T5)>().map(b, |x| x.0 .0 == 5 && x.1 .0 == 6) == Some(true), 375);
    check(w.query_one::<(&T1, &T3)>().exclude::<&T2>().map(a, |x| x.0 .0 == 1 && x.1 .0 == 2) == Some(true), 376);
    check(w.query_one::<(&T1, &T2, &T5)>().exclude::<&T4>().map(c, |x| x.0 .0 == 8 && x.1 .0 == 7 && x.2 .0 == 9) == Some(true), 377);
    let all = |w: &World, two: usize, one: usize, pair: usize, l: u64| {
        let mut k = 0;
        w.for_each::<(&T1, &T2)>(|(x, y)| {
            check(y.0 == 3 && x.0 == v || y.0 == 7 && x.0 == 8 || y.0 == 20 && x.0 == 1, 378);
            k += 1;
        });
        check(k == two, 379);
        k = 0;
        w.query_all::<&T1>().include::<&T2>().exclude::<&T3>().for_each(|_| k += 1);
        check(k == one, 380);
        k = 0;
        w.for_each::<(&T4, &T5)>(|_| k += 1);
        check(k == pair, 381);
        match w.query_all::<(&T1, &T2)>().slice() {
            Some((x, y)) => check(x.len() == two && y.len() == two, 382),
            None => check(l == 0, 383),
        }
    };
    let now = if panicked { l } else { 2 };
    all(&w, 2, 1, 1, now);
    check(w.insert(a, (X::<1>(20), X::<70>(21))), 384);
    all(&w, 3, 1, 1, now);
    w.delete::<(T3, T5)>(b);
    all(&w, 3, 2, 0, now);
    check(w.destroy(c), 385);
    all(&w, 2, 1, 0, now);
    if panicked {
        reach(2);
        // the world still accepts another layout
        w.set_layout(&many(64));
        all(&w, 2, 1, 0, 2);
    }
    note(n as u64);
    reach(1);
}

// ---------------- group information ----------------

/// The information of the view of a component type, from either kind of borrow.
fn info_of(w: &World, k: u64, how: u64) -> Option<GroupInfo> {
    macro_rules! of {
        ($($n:literal $T:ty),*) => {
            match k {
                $( $n => {
                    let (n, i) = match how {
                        0 => { let (v, i) = w.borrow_with_group_info::<$T>(); (v.len(), i) }
                        _ => { let (v, i) = w.borrow_with_group_info_mut::<$T>(); (v.len(), i) }
                    };
                    check(n == w.borrow::<$T>().len(), 700);
                    i
                } )*
                _ => unreachable!(),
            }
        };
    }
    of!(0 A, 1 B, 2 C, 3 D, 10 X<0>, 11 X<15>, 12 X<16>, 13 X<31>, 14 X<47>, 15 X<48>, 16 X<63>, 17 X<64>, 18 X<65>, 19 X<68>,
        20 X<70>, 21 X<71>, 22 X<75>)
}

/// Sums of group information exist for exactly the sets of views within one family.
/// `fam` gives the family of a view, 0 for none.
fn sums(w: &World, ks: &[u64], fam: &dyn Fn(u64) -> u32) {
    let mut f = [0; 4];
    let mut v = [ViewGroupInfo { info: None, len: 0 }; 4];
    let n = ks.len();
    let how = choose(2, 70);
    let mut i = 0;
    while i < n {
        f[i] = fam(ks[i]);
        v[i].info = info_of(w, ks[i], (how + i as u64) % 2);
        v[i].len = sym(64, 71) as usize;
        check(v[i].info.is_some() == (f[i] != 0), 701);
        i += 1;
    }
    // which of views from..to can be summed, and whether the sum carries information
    let can = |from: usize, to: usize| {
        let mut ok = true;
        let mut i = from;
        while i < to {
            ok &= to - from < 2 || f[i] != 0 && f[i] == f[from];
            i += 1;
        }
        ok
    };
    let grouped = |from: usize, to: usize| from < to && can(from, to) && f[from] != 0;
    let sum = |from: usize, to: usize| {
        let mut q = Some(QueryGroupInfo::Empty);
        let mut i = from;
        while i < to {
            q = q.and_then(|q| q.add_view(&v[i]));
            check(q.is_some() == can(from, i + 1), 702);
            i += 1;
        }
        if let Some(q) = &q {
            check(q.group_info().is_some() == grouped(from, to), 703);
            let kind = match q {
                QueryGroupInfo::Empty => 0,
                QueryGroupInfo::One(o) => {
                    check(o.len == v[from].len, 704);
                    1
                }
                QueryGroupInfo::Many(_) => 2,
            };
            check(kind == (to - from).min(2), 705);
        }
        q
    };
    // split at any point into two or three queries, which are then put together
    let i = choose(n as u64 + 1, 72) as usize;
    let j = i + choose((n - i) as u64 + 1, 73) as usize;
    if let (Some(a), Some(b), Some(c)) = (sum(0, i), sum(i, j), sum(j, n)) {
        let ab = a.add_query(&b);
        check(ab.is_some() == can(0, j), 706);
        let bc = b.add_query(&c);
        check(bc.is_some() == can(i, n), 707);
        let ab_c = ab.and_then(|q| q.add_query(&c));
        let a_bc = bc.and_then(|q| a.add_query(&q));
        check(ab_c.is_some() == can(0, n), 708);
        check(a_bc.is_some() == (can(0, n) && can(i, n)), 709);
        if let Some(q) = ab_c {
            check(q.group_info().is_some() == grouped(0, n), 710);
            if n >= 2 {
                reach(2);
            }
        }
        if let Some(q) = a_bc {
            check(q.group_info().is_some() == grouped(0, n), 711);
        }
    }
    if n >= 2 {
        match (v[0].info, v[1].info) {
            (Some(a), Some(b)) => {
                check(a.add_group(b).is_some() == (f[0] == f[1]), 712);
                check(b.add_group(a).is_some() == (f[0] == f[1]), 713);
                reach(if f[0] == f[1] { 3 } else { 4 });
            }
            _ => {}
        }
    }
}

/// Group information under layouts of any groups, also after a change of the layout.
#[cfg(any(not(pick), h_c23_info))]
#[no_mangle]
pub extern "C-unwind" fn h_c23_info() {
    let some = |groups: u64| {
        let mut gl = GroupLayout::default();
        let mut gs = Groups { g: [0; 8], n: 0 };
        let mut i = 0;
        while i < groups {
            let set = choose(16, 74) as u8;
            let (l, len) = listed(set, i as usize, false, false);
            if !gs.has(set) && set.count_ones() >= 2 && gs.legal(set) {
                gl.add_group_dyn(&l[..len]);
                gs.add(set);
            }
            i += 1;
        }
        (gl, gs)
    };
    let (gl, mut gs) = some(param(10, 2));
    let mut w = World::new(&gl);
    let everything = |w: &mut World| {
        w.register::<A>();
        w.register::<B>();
        w.register::<C>();
        w.register::<D>();
    };
    everything(&mut w);
    let mut m = M::new();
    create(&mut w, &mut m, 15);
    create(&mut w, &mut m, 5);
    match choose(param(11, 5), 75) {
        0 => {}
        1 => {
            let (gl, g) = some(param(5, 1));
            w.set_layout(&gl);
            gs = g;
            reach(5);
        }
        2 => w.clear(),
        3 => {
            w.reset();
            everything(&mut w);
        }
        _ => w.delete::<(A, C)>(m.s[0].e),
    }
    let mut ks = [0; 3];
    let n = choose(4, 76) as usize;
    let mut i = 0;
    while i < n {
        ks[i] = choose(4, 77);
        i += 1;
    }
    sums(&w, &ks[..n], &|k| {
        let f = gs.family(1 << k);
        if f.count_ones() > 1 { f as u32 } else { 0 }
    });
    note(n as u64);
    reach(1);
}

/// The same for two views under layouts of many groups.
#[cfg(any(not(pick), h_c23_many))]
#[no_mangle]
pub extern "C-unwind" fn h_c23_many() {
    let n = [1, 15, 16, 31, 46, 60, 61, 62, 63, 64][choose(10, 78) as usize];
    let mut w = World::new(&many(n));
    let mut i = 0;
    while i < 76 {
        w.register_dyn(XS[i]);
        i += 1;
    }
    const K: [usize; 13] = [0, 15, 16, 31, 47, 48, 63, 64, 65, 68, 70, 71, 75];
    let ks = [10 + choose(13, 79), 10 + choose(13, 80)];
    sums(&w, &ks, &|k| {
        let x = K[k as usize - 10];
        // four chains of up to 15 groups, then pairs
        if x < 64 {
            let (f, pos) = (x / 16, x % 16);
            // the first `n - 15 f` groups of the chain cover that many types and one more
            if n > 15 * f && pos <= n - 15 * f { 1 + f as u32 } else { 0 }
        } else if n > 60 + (x - 64) / 2 {
            5 + (x as u32 - 64) / 2
        } else {
            0
        }
    });
    note(n as u64);
    reach(1);
}
