//! C05, C10, C14, C15: whole-world properties.
use crate::h_query::*;
use crate::model::*;
use crate::rt::*;
use sparsey::{Entity, World};

// ---------------- differential comparison of two worlds ----------------

pub const MAXI: usize = 20;
pub struct Set {
    e: [(u64, u64); MAXI],
    n: usize,
}
impl Set {
    pub fn new() -> Set {
        Set { e: [(0, 0); MAXI], n: 0 }
    }
    pub fn add(&mut self, k: u64, v: u64) {
        self.e[self.n] = (k, v);
        self.n += 1;
    }
    /// Equality as maps with unique keys.
    pub fn same(&self, o: &Set, id: u32) {
        check(self.n == o.n, id);
        let mut i = 0;
        while i < self.n {
            let mut hits = 0;
            let mut j = 0;
            while j < o.n {
                if self.e[i].0 == o.e[j].0 {
                    hits += 1;
                    check(self.e[i].1 == o.e[j].1, id);
                }
                j += 1;
            }
            check(hits == 1, id);
            i += 1;
        }
    }
}

fn mix(a: u64, b: u64) -> u64 {
    a.wrapping_mul(0x1_0000_01b3) ^ b
}
fn opt<T: Kind>(o: Option<&T>) -> u64 {
    o.map_or(1, |x| mix(2, x.v()))
}

pub fn view_set<T: Kind>(w: &World) -> Set {
    let v = w.borrow::<T>();
    let mut s = Set::new();
    for (i, &e) in v.entities().iter().enumerate() {
        s.add(bits(e), v.as_slice()[i].v());
    }
    s
}

/// Same entities, same components, same values.
pub fn same_content(a: &World, b: &World, id: u32) {
    let (x, y) = (a.entities(), b.entities());
    check(x.len() == y.len(), id);
    for e in x {
        check(b.contains_entity(*e), id);
    }
    view_set::<A>(a).same(&view_set::<A>(b), id + 1);
    view_set::<B>(a).same(&view_set::<B>(b), id + 2);
    view_set::<C>(a).same(&view_set::<C>(b), id + 3);
    view_set::<D>(a).same(&view_set::<D>(b), id + 4);
}

macro_rules! diff_all {
    ($a:expr, $b:expr, $id:expr; $Q:ty; $pat:pat => $key:expr, $val:expr; $($f:tt)*) => {{
        let (a, b): (&World, &World) = ($a, $b);
        let run = |w: &World| {
            let mut s = Set::new();
            let mut q = w.query_all::<$Q>() $($f)*;
            for $pat in q.iter() {
                s.add(bits($key), $val);
            }
            let mut n = 0;
            q.for_each(|_| n += 1);
            check(n == s.n, $id);
            s
        };
        run(a).same(&run(b), $id);
    }};
}
macro_rules! diff_one {
    ($a:expr, $b:expr, $e:expr, $id:expr; $Q:ty; $pat:pat => $val:expr; $($f:tt)*) => {{
        let (a, b): (&World, &World) = ($a, $b);
        let run = |w: &World| {
            let mut q = w.query_one::<$Q>() $($f)*;
            let c = q.contains($e);
            let v = q.get($e).map(|$pat| $val);
            check(c == v.is_some(), $id);
            v
        };
        let (x, y) = (run(a), run(b));
        check(x.is_some() == y.is_some(), $id);
        if let (Some(x), Some(y)) = (x, y) {
            check(x == y, $id);
        }
    }};
}

/// Many queries, including degenerate ones, answer alike.
fn same_answers(a: &World, b: &World) {
    same_content(a, b, 200);
    diff_all!(a, b, 210; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); );
    diff_all!(a, b, 211; (Entity, &B, Option<&C>); (e, x, y) => e, mix(x.v(), opt(y)); .include::<&A>());
    diff_all!(a, b, 212; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .exclude::<&C>());
    diff_all!(a, b, 213; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .exclude::<(&C, &D)>());
    diff_all!(a, b, 214; (Entity, &A, &B, &C); (e, x, y, z) => e, mix(mix(x.v(), y.v()), z.v()); );
    diff_all!(a, b, 215; (Entity, &A, &B, &C); (e, x, y, z) => e, mix(mix(x.v(), y.v()), z.v()); .exclude::<&D>());
    diff_all!(a, b, 216; (Entity, &C, &D, Option<&B>); (e, x, y, z) => e, mix(mix(x.v(), y.v()), opt(z)); );
    diff_all!(a, b, 217; (Entity, &A); (e, x) => e, x.v(); .include::<(&B, &C, &D)>());
    diff_all!(a, b, 218; (Entity, &B, &C); (e, x, y) => e, mix(x.v(), y.v()); .exclude::<&A>());
    diff_all!(a, b, 219; (Entity, &C); (e, x) => e, x.v(); .include::<&B>().exclude::<(&D, &A)>());
    // degenerate filters
    diff_all!(a, b, 220; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .exclude::<Option<&C>>());
    diff_all!(a, b, 221; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .exclude::<Entity>());
    diff_all!(a, b, 222; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .exclude::<(&C, Option<&D>)>());
    diff_all!(a, b, 223; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .include::<Option<&C>>());
    diff_all!(a, b, 224; (Entity, &A); (e, x) => e, x.v(); .include::<(Entity, &B)>());
    diff_all!(a, b, 225; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .include::<&A>().exclude::<&A>());
    diff_all!(a, b, 226; (Entity, &A, &A, &B); (e, x, z, y) => e, mix(mix(x.v(), z.v()), y.v()); );
    diff_all!(a, b, 227; (Entity, &A, &B, Option<&A>); (e, x, y, z) => e, mix(mix(x.v(), y.v()), opt(z)); );
    diff_all!(a, b, 228; (Entity, Option<&C>); (e, x) => e, opt(x); .include::<(&A, &B)>());
    diff_all!(a, b, 229; Entity; e => e, 0; .include::<(&A, &B, &C)>().exclude::<&D>());
    diff_all!(a, b, 230; (Entity, &D); (e, x) => e, x.v(); .exclude::<(&A, &B, &C)>());
    diff_all!(a, b, 231; Entity; e => e, 0; );
    diff_all!(a, b, 232; (Entity, Option<&A>); (e, x) => e, opt(x); );
    diff_all!(a, b, 233; (Entity, &A, &C); (e, x, y) => e, mix(x.v(), y.v()); .include::<&B>().exclude::<(&D, &A)>());
    diff_all!(a, b, 234; (Entity, &A, &B); (e, x, y) => e, mix(x.v(), y.v()); .include::<(&C, &D)>().exclude::<&A>());
}

macro_rules! pair_ops {
    ($( $bits:pat => [$($T:ident $t:ident),*] );* $(;)?) => {
        fn create2(a: &mut World, b: &mut World, m: &mut M, set: u8) {
            match set {
                $( $bits => {
                    $( let $t = val::<$T>(100 + $T::IX as u32); )*
                    let e = a.create(($($T::mk($t),)*));
                    let f = b.create(($($T::mk($t),)*));
                    check(e == f, 240);
                    m.issue(e, true, 10);
                } )*
                _ => unreachable!(),
            }
        }
        fn op2(a: &mut World, b: &mut World, e: Entity, set: u8, op: u64) {
            match set {
                $( $bits => match op {
                    0 => {
                        $( let $t = val::<$T>(110 + $T::IX as u32); )*
                        check(a.insert(e, ($($T::mk($t),)*)) == b.insert(e, ($($T::mk($t),)*)), 241);
                    }
                    1 => {
                        let x = a.remove::<($($T,)*)>(e);
                        let y = b.remove::<($($T,)*)>(e);
                        #[allow(unused)]
                        let mut s = [0u64; 4];
                        { let ($($t,)*) = &x; $( s[$T::IX] = opt($t.as_ref()); )* }
                        { let ($($t,)*) = &y; $( check(s[$T::IX] == opt($t.as_ref()), 242); )* }
                    }
                    _ => {
                        a.delete::<($($T,)*)>(e);
                        b.delete::<($($T,)*)>(e);
                    }
                }, )*
                _ => unreachable!(),
            }
        }
        /// extend by two tuples in both worlds
        fn twice2(a: &mut World, b: &mut World, m: &mut M, set: u8) {
            match set {
                $( $bits => {
                    $( let $t = [val::<$T>(120 + $T::IX as u32), val::<$T>(140 + $T::IX as u32)]; )*
                    let run = |w: &mut World| {
                        let s = w.extend((0..2usize).map(|i| { let _ = i; ($($T::mk($t[i]),)*) }));
                        check(s.len() == 2, 248);
                        [s[0], s[1]]
                    };
                    let es = run(a);
                    check(run(b) == es, 249);
                    m.issue(es[0], true, 10);
                    m.issue(es[1], true, 10);
                } )*
                _ => unreachable!(),
            }
        }
        /// extend by one type of tuple, against creation one by one
        fn extend2(a: &mut World, b: &mut World, m: &mut M, set: u8, n: usize, kind: u64) {
            match set {
                $( $bits => {
                    // tuples of symbolic values, used by both worlds
                    let vals: [[u64; 4]; LONG] = core::array::from_fn(|i| {
                        #[allow(unused_mut)]
                        let mut r = [0u64; 4];
                        if i < n {
                            $( r[$T::IX] = val::<$T>(130); )*
                        }
                        r
                    });
                    let mut want = [ent(0, 1); LONG];
                    let mut i = 0;
                    while i < n {
                        want[i] = b.create(($($T::mk(vals[i][$T::IX]),)*));
                        m.issue(want[i], true, 1);
                        i += 1;
                    }
                    #[allow(unused)]
                    let it = (0..n).map(|i| ($($T::mk(vals[i][$T::IX]),)*));
                    let got = match kind {
                        0 => a.extend(it),
                        // `filter` hides the length
                        1 => a.extend(it.filter(|_| true)),
                        // loose bounds
                        2 => a.extend(Hint(it, (0, Some(n + 3)))),
                        _ => a.extend(Hint(it, (n / 2, Some(usize::MAX)))),
                    };
                    check(got.len() == n, 243);
                    let mut i = 0;
                    while i < n {
                        check(got[i] == want[i], 244);
                        i += 1;
                    }
                } )*
                _ => unreachable!(),
            }
        }
    };
}
pair_ops! {
    0 => [];
    1 => [A a];
    2 => [B b];
    3 => [B b, A a];
    4 => [C c];
    5 => [A a, C c];
    6 => [C c, B b];
    7 => [A a, B b, C c];
    8 => [D d];
    9 => [D d, A a];
    10 => [B b, D d];
    11 => [D d, B b, A a];
    12 => [C c, D d];
    13 => [C c, A a, D d];
    14 => [D d, C c, B b];
    15 => [B b, D d, A a, C c];
}
fn pair_op(a: &mut World, b: &mut World, m: &mut M) {
    if narrow() {
        let c = choose(2 + 6 * m.n as u64, 26) as usize;
        if c < 2 {
            return create2(a, b, m, CREATED[c]);
        }
        let e = m.s[(c - 2) / 6].e;
        return match NARROW[(c - 2) % 6] {
            (3, _) => check(a.destroy(e) == b.destroy(e), 245),
            (kind, set) => op2(a, b, e, set, kind),
        };
    }
    let c = choose(1 + 4 * m.n as u64 + param(14, RARE), 21);
    if c == 0 {
        let set = choose_set(kinds(), true, 22);
        create2(a, b, m, set);
        return;
    }
    if c > 4 * m.n as u64 {
        match c - 1 - 4 * m.n as u64 {
            i @ 0..=2 => twice2(a, b, m, [kinds(), kinds() & 3, kinds() & 14][i as usize]),
            i @ 3..=4 => {
                a.clear();
                b.clear();
                create2(a, b, m, [kinds(), kinds() & 3][i as usize - 3]);
            }
            _ => {
                let e = a.create_atomic();
                check(e == b.create_atomic(), 247);
                a.maintain();
                b.maintain();
                m.issue(e, true, 10);
                op2(a, b, e, kinds() & 7, 0);
            }
        }
        return;
    }
    let e = m.s[((c - 1) >> 2) as usize].e;
    match (c - 1) & 3 {
        3 => check(a.destroy(e) == b.destroy(e), 245),
        op => {
            let set = choose_set(kinds(), false, 23);
            op2(a, b, e, set, op);
        }
    }
}

/// As `age`, in both worlds.
fn age2(a: &mut World, b: &mut World, m: &mut M) {
    let n = choose(param(7, 1) + 1, 19);
    let k0 = m.n;
    let mut i = 0;
    while i < n {
        create2(a, b, m, 0);
        i += 1;
    }
    while i > 0 {
        i -= 1;
        let e = m.s[k0 + i as usize].e;
        check(a.destroy(e) && b.destroy(e), 246);
    }
}

/// Same operations on an ungrouped and a grouped world.
#[cfg(any(not(pick), h_c05_diff))]
#[no_mangle]
pub extern "C-unwind" fn h_c05_diff() {
    let mut a = world(0);
    let mut b = world(choose_layout(1));
    let mut m = M::new();
    age2(&mut a, &mut b, &mut m);
    let mut i = 0;
    while i < param(2, 2) {
        let set = choose_set(kinds(), true, 20);
        create2(&mut a, &mut b, &mut m, set);
        i += 1;
    }
    let mut i = 0;
    while i < param(1, 1) {
        pair_op(&mut a, &mut b, &mut m);
        i += 1;
    }
    same_answers(&a, &b);
    let mut k = 0;
    while k < m.n {
        let e = m.s[k].e;
        diff_one!(&a, &b, e, 250; (&A, &B); (x, y) => mix(x.v(), y.v()); .exclude::<&C>());
        diff_one!(&a, &b, e, 251; (&A, Option<&C>); (x, y) => mix(x.v(), opt(y)); .include::<&B>());
        diff_one!(&a, &b, e, 252; &C; x => x.v(); .exclude::<(&A, Option<&B>)>());
        diff_one!(&a, &b, e, 253; (&C, &D); (x, y) => mix(x.v(), y.v()); .exclude::<(&A, &B)>());
        k += 1;
    }
    note(a.entities().len() as u64);
    let s = view_set::<A>(&b);
    let mut i = 0;
    while i < s.n {
        note(s.e[i].0);
        note(s.e[i].1);
        i += 1;
    }
    reach(1);
}

/// Most tuples for extend.
const LONG: usize = 12;

/// An iterator with a loose size hint.
struct Hint<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// extend against one-by-one creation, in worlds with a past and a future.
#[cfg(any(not(pick), h_c15_extend))]
#[no_mangle]
pub extern "C-unwind" fn h_c15_extend() {
    let l = choose_layout(1);
    let mut a = world(l);
    let mut b = world(l);
    let mut m = M::new();
    age2(&mut a, &mut b, &mut m);
    let mut i = 0;
    while i < param(2, 1) {
        let set = choose_set(kinds(), true, 20);
        create2(&mut a, &mut b, &mut m, set);
        i += 1;
    }
    let mut i = 0;
    while i < param(6, 0) {
        pair_op(&mut a, &mut b, &mut m);
        i += 1;
    }
    // a recycled index or a pending deferred entity
    match choose(3, 27) {
        1 if m.n > 0 => {
            let e = m.s[m.n - 1].e;
            check(a.destroy(e) == b.destroy(e), 260);
            reach(2);
        }
        2 => {
            let e = a.create_atomic();
            check(e == b.create_atomic(), 261);
            m.issue(e, false, 1);
            reach(3);
        }
        _ => {}
    }
    let set = choose_set(kinds(), true, 28);
    let n = choose(param(5, 4), 29) as usize;
    extend2(&mut a, &mut b, &mut m, set, n, choose(param(8, 2), 31));
    let mut i = 0;
    while i < a.entities().len() {
        check(a.entities()[i] == b.entities()[i], 262);
        i += 1;
    }
    same_content(&a, &b, 264);
    let mut i = 0;
    while i < param(1, 0) {
        pair_op(&mut a, &mut b, &mut m);
        i += 1;
    }
    a.maintain();
    b.maintain();
    same_answers(&a, &b);
    note(a.entities().len() as u64);
    note(n as u64);
    if n as u64 == param(5, 4) - 1 {
        reach(1);
    }
}

fn query_battery(w: &World, m: &M, l: u64) {
    q_iter!(w, m; [A a] [] [] []);
    q_iter!(w, m; [A a, B b] [C c] [] []);
    q_iter!(w, m; [B b, A a] [] [] [C c]);
    q_iter!(w, m; [A a, B b, C c] [] [] [D d]);
    q_iter!(w, m; [C c, D d] [A a] [] []);
    q_iter!(w, m; [A a, C c] [] [B b, D d] []);
    q_slice!(w, m, l; [A a] [] []);
    q_slice!(w, m, l; [A a, B b] [] []);
    q_slice!(w, m, l; [B b, A a] [] [C c]);
    q_slice!(w, m, l; [A a, C c] [B b] []);
    q_slice!(w, m, l; [B b, C c] [] [A a]);
    q_slice!(w, m, l; [D d, C c] [] []);
    q_slice!(w, m, l; [D d, C c, A a] [B b] []);
    q_slice!(w, m, l; [C c, A a] [B b] [D d]);
}

#[derive(Clone, Copy)]
struct Late(u32);
#[derive(Clone, Copy)]
struct Never(#[allow(unused)] u8);

/// set_layout on a populated world; registration.
#[cfg(any(not(pick), h_c10_layout))]
#[no_mangle]
pub extern "C-unwind" fn h_c10_layout() {
    let l1 = choose_layout(1);
    let mut w = world(l1);
    let mut m = M::new();
    populate(&mut w, &mut m);
    let mut i = 0;
    while i < param(5, 0) {
        comp_op(&mut w, &mut m);
        i += 1;
    }
    let l2 = choose(LAYOUTS, 2);
    assume(param(6, 255) >> l2 & 1 == 1);
    w.set_layout(&layout(l2));
    check(w.is_registered::<A>() && w.is_registered::<B>(), 270);
    check(w.is_registered::<C>() && w.is_registered::<D>(), 271);
    check_live(&w, &m);
    check_kinds(&w, &m);
    query_battery(&w, &m, l2);
    comp_ops(&mut w, &mut m);
    check_live(&w, &m);
    check_kinds(&w, &m);
    query_battery(&w, &m, l2);
    note_state(&m);
    reach(1);
}

/// Several layout changes in a row, with creations between them.
#[cfg(any(not(pick), h_c10_twice))]
#[no_mangle]
pub extern "C-unwind" fn h_c10_twice() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    let mut l = 0;
    let mut i = 0;
    while i < 3 {
        let set = choose_set(kinds(), true, 20);
        create(&mut w, &mut m, set);
        if i < 2 {
            l = choose(LAYOUTS, 2);
            assume(param(6, 255) >> l & 1 == 1);
            w.set_layout(&layout(l));
        }
        i += 1;
    }
    check_live(&w, &m);
    check_kinds(&w, &m);
    query_battery(&w, &m, l);
    note_state(&m);
    reach(1);
}

/// Registration: newness, independence of existing data, unregistered types.
#[cfg(any(not(pick), h_c10_register))]
#[no_mangle]
pub extern "C-unwind" fn h_c10_register() {
    // registration by layout only
    let l = choose_layout(1);
    let grouped: u8 = match l {
        0 => 0,
        1 => 3,
        2 | 3 => 7,
        _ => 15,
    };
    let mut w = World::new(&layout(l));
    check(w.is_registered::<A>() == (grouped & 1 == 1), 280);
    check(w.is_registered::<B>() == (grouped & 2 == 2), 281);
    check(w.is_registered::<C>() == (grouped & 4 == 4), 282);
    check(w.is_registered::<D>() == (grouped & 8 == 8), 283);
    check(w.register::<A>() == (grouped & 1 == 0), 284);
    check(!w.register::<A>(), 285);
    check(w.register::<D>() == (grouped & 8 == 0), 286);
    check(w.register::<B>() == (grouped & 2 == 0), 287);
    check(w.register::<C>() == (grouped & 4 == 0), 288);
    check(!w.register::<D>() && !w.register::<C>() && !w.register::<B>(), 289);
    let mut m = M::new();
    populate(&mut w, &mut m);
    check(!w.is_registered::<Late>(), 290);
    // using an unregistered type panics
    let e0 = m.s[m.n - 1].e;
    let how = choose(18, 33);
    let p = catch(|| match how {
        0 => drop(w.borrow::<Late>().len()),
        1 => drop(w.borrow_mut::<Late>().len()),
        2 => drop(w.query_all::<&Late>().iter().count()),
        3 => drop(w.query_all::<&A>().exclude::<&Late>().iter().count()),
        4 => drop(w.query_one::<Option<&mut Late>>().contains(e0)),
        5 => drop(w.insert(e0, (Late(3),))),
        6 => drop(w.remove::<(Late,)>(e0)),
        7 => w.delete::<(Late,)>(e0),
        8 => drop(w.contains::<&Late>(e0)),
        // together with registered types
        9 => drop(w.insert(e0, (A::mk(9), Late(3)))),
        10 => drop(w.insert(e0, (Late(3), B::mk(9), A::mk(8), C::mk(7)))),
        11 => drop(w.remove::<(A, Late)>(e0)),
        12 => w.delete::<(B, Late, A)>(e0),
        13 => drop(w.extend([(A::mk(9), B::mk(9), Late(3))]).len()),
        14 => drop(w.create((B::mk(9), A::mk(9), Late(3)))),
        15 => w.for_each::<(&mut A, &Late)>(|_| ()),
        16 => drop(w.query_one::<(Entity, &A)>().exclude::<&Late>().get(e0)),
        _ => drop(w.query_all::<&A>().include::<&Late>().slice().is_some()),
    });
    check(p, 291);
    // `create` may leave an entity without components
    if w.entities().len() > m.live_count() {
        check(how == 14 || how == 13, 264);
        let e = w.entities()[w.entities().len() - 1];
        m.issue(e, true, 265);
    }
    check_kinds(&w, &m);
    check(w.register::<Late>(), 292);
    check(!w.register::<Late>(), 293);
    check(w.is_registered::<Late>() && !w.is_registered::<Never>(), 294);
    check_kinds(&w, &m);
    query_battery(&w, &m, l);
    let v = sym(32, 140) as u32;
    check(w.insert(e0, (Late(v),)), 295);
    // re-registering must not lose it
    check(!w.register::<Late>(), 296);
    let l2 = choose(LAYOUTS, 2);
    w.set_layout(&layout(l2));
    check(w.is_registered::<Late>() && !w.is_registered::<Never>(), 297);
    check_kinds(&w, &m);
    check_live(&w, &m);
    check(w.borrow::<Late>().get(e0).map(|x| x.0) == Some(v), 298);
    check(w.remove::<(Late,)>(e0).0.map(|x| x.0) == Some(v), 299);
    note_state(&m);
    reach(1);
}

/// clear: empty, old handles dead for good, everything usable as before.
#[cfg(any(not(pick), h_c14_clear))]
#[no_mangle]
pub extern "C-unwind" fn h_c14_clear() {
    let l = choose_layout(1);
    let mut w = world(l);
    let mut m = M::new();
    populate(&mut w, &mut m);
    before(&mut w, &mut m);
    past(&mut w, &mut m);
    w.clear();
    m.kill_all();
    empty(&w, &m, l);
    w.maintain();
    empty(&w, &m, l);
    let old = m.n;
    let mut i = 0;
    while i < param(5, 2) {
        let set = choose_set(kinds(), true, 34);
        create(&mut w, &mut m, set); // checks that the handle is new
        i += 1;
    }
    comp_ops(&mut w, &mut m);
    let e = w.create_atomic();
    m.issue(e, false, 300);
    w.maintain();
    m.maintain();
    check_live(&w, &m);
    check_kinds(&w, &m);
    query_battery(&w, &m, l);
    note_state(&m);
    note(old as u64);
    reach(1);
}

/// reset: like a new world, including the handles it gives out.
#[cfg(any(not(pick), h_c14_reset))]
#[no_mangle]
pub extern "C-unwind" fn h_c14_reset() {
    let l = choose_layout(1);
    let mut w = world(l);
    let mut m = M::new();
    populate(&mut w, &mut m);
    before(&mut w, &mut m);
    past(&mut w, &mut m);
    w.reset();
    m.kill_all();
    empty(&w, &m, l);
    if flip(35) {
        w.maintain();
        empty(&w, &m, l);
    }
    let mut f = world(l);
    let mut m = M::new();
    let mut i = 0;
    while i < param(5, 1) {
        let set = choose_set(kinds(), true, 34);
        create2(&mut w, &mut f, &mut m, set); // same handle in both
        i += 1;
    }
    let x = w.create_atomic();
    check(x == f.create_atomic(), 310);
    m.issue(x, false, 301);
    let mut i = 0;
    while i < param(1, 1) {
        pair_op(&mut w, &mut f, &mut m);
        i += 1;
    }
    w.maintain();
    f.maintain();
    let y = w.create(());
    check(y == f.create(()), 311);
    same_answers(&w, &f);
    note(m.n as u64);
    note(bits(y));
    reach(1);
}

/// param 6 operations.
fn before(w: &mut World, m: &mut M) {
    let mut i = 0;
    while i < param(6, 0) {
        comp_op(w, m);
        i += 1;
    }
}

/// Whatever came before: nothing, a recycled index, pending deferred creations.
fn past(w: &mut World, m: &mut M) {
    let c = choose(5, 36);
    if c == 1 || c == 3 {
        if m.n > 0 {
            destroy(w, m, m.n - 1);
        }
    }
    if c >= 2 {
        let e = w.create_atomic();
        m.issue(e, false, 302);
    }
    if c == 4 {
        w.maintain();
        m.maintain();
        let e = w.create_atomic();
        m.issue(e, false, 302);
        if m.n > 1 {
            destroy(w, m, 1);
        }
        reach(2);
    }
}

fn empty(w: &World, m: &M, l: u64) {
    check_live(w, m);
    check(w.is_empty(), 320);
    check_kinds(w, m);
    q_iter!(w, m; [A a, B b] [] [] []);
    q_iter!(w, m; [] [] [C c] []);
    q_slice!(w, m, l; [A a, B b] [] []);
    q_slice!(w, m, l; [B b, A a] [] [C c]);
}
