//! C12: memory safety and alignment for components of unusual sizes, while storages grow and shrink.
//! Bounds, lifetime, initialisation and freeing are checked by the executor on every access.
use crate::model::{choose_layout, ent};
use crate::rt::*;
use sparsey::component::{Component, GroupLayout};
use sparsey::{Entity, World};

pub trait Mk: Component {
    fn mk(v: u64) -> Self;
    fn v(&self) -> u64;
}
#[repr(align(64))]
pub struct O(u8);
#[repr(align(16))]
pub struct ZA;
pub struct Big([u64; 20]);
pub struct Byte(u8);
pub struct Odd([u8; 3]);
impl Mk for O {
    fn mk(v: u64) -> Self {
        O(v as u8)
    }
    fn v(&self) -> u64 {
        self.0 as u64
    }
}
impl Mk for ZA {
    fn mk(_: u64) -> Self {
        ZA
    }
    fn v(&self) -> u64 {
        0
    }
}
impl Mk for Big {
    fn mk(v: u64) -> Self {
        let mut b = [v; 20];
        b[19] = !v;
        Big(b)
    }
    fn v(&self) -> u64 {
        check(self.0[19] == !self.0[0] && self.0[7] == self.0[0], 600);
        self.0[0]
    }
}
impl Mk for Byte {
    fn mk(v: u64) -> Self {
        Byte(v as u8)
    }
    fn v(&self) -> u64 {
        self.0 as u64
    }
}
impl Mk for Odd {
    fn mk(v: u64) -> Self {
        Odd([v as u8, 1, v as u8])
    }
    fn v(&self) -> u64 {
        check(self.0[1] == 1 && self.0[0] == self.0[2], 601);
        self.0[0] as u64
    }
}

fn at<T>(x: &T) -> bool {
    x as *const T as usize % core::mem::align_of::<T>() == 0
}

const N: usize = 72;
struct M {
    e: [Entity; N],
    has: [u8; N],
    val: [u64; N],
    n: usize,
}

fn lay(l: u64) -> GroupLayout {
    let mut g = GroupLayout::default();
    match l {
        1 => g.add_group::<(Byte, O)>(),
        2 => {
            g.add_group::<(Big, Byte, O)>();
            g.add_group::<(O, Byte)>();
        }
        3 => {
            g.add_group::<(ZA, O)>();
            g.add_group::<(Odd, Byte)>();
        }
        4 => g.add_group::<(ZA, Odd, Big, O, Byte)>(),
        5 => {
            g.add_group::<(ZA, Big)>();
            g.add_group::<(ZA, Big, Odd)>();
            g.add_group::<(ZA, Big, Odd, O)>();
        }
        _ => {}
    }
    g
}
fn world(l: u64) -> World {
    let mut w = World::new(&lay(l));
    w.register::<O>();
    w.register::<ZA>();
    w.register::<Big>();
    w.register::<Byte>();
    w.register::<Odd>();
    w
}

/// One kind as seen through views: aligned, in bounds, with the right values.
fn kind<T: Mk>(w: &World, m: &M, bit: u8, unit: bool) {
    let mut v = w.borrow_mut::<T>();
    let mut n = 0;
    let mut k = 0;
    while k < m.n {
        let has = m.has[k] >> bit & 1 == 1;
        match v.get(m.e[k]) {
            Some(x) => {
                check(has && at(x), 602);
                check(x.v() == if unit { 0 } else { m.val[k] }, 603);
            }
            None => check(!has, 604),
        }
        n += has as usize;
        k += 1;
    }
    let len = v.len();
    check(len == n, 605);
    let p = v.as_slice().as_ptr();
    check(p as usize % core::mem::align_of::<T>() == 0, 606);
    check(!p.is_null() && v.as_mut_slice().as_ptr() == p, 607);
    check(v.entities().as_ptr() as usize % 4 == 0, 608);
    if len > 0 {
        // every element can be read and written
        let s = v.as_mut_slice();
        let t = core::mem::replace(&mut s[len - 1], T::mk(5));
        s[len - 1] = t;
        if len > 1 {
            s.swap(0, len - 1);
            s.swap(0, len - 1);
        }
    }
}
fn kinds(w: &World, m: &M) {
    kind::<O>(w, m, 0, false);
    kind::<ZA>(w, m, 1, true);
    kind::<Big>(w, m, 2, false);
    kind::<Byte>(w, m, 3, false);
    kind::<Odd>(w, m, 4, false);
}
fn queries(w: &World, m: &M) {
    macro_rules! q {
        ($mask:expr, $not:expr; [$($T:ident $t:ident),*] $($f:tt)*) => {{
            let mut n = 0;
            let mut want = 0;
            let mut k = 0;
            while k < m.n {
                want += (m.has[k] & $mask == $mask && m.has[k] & $not == 0 && m.has[k] & 128 != 0) as usize;
                k += 1;
            }
            let mut q = w.query_all::<($(&mut $T,)*)>() $($f)*;
            q.for_each(|($($t,)*)| {
                $( check(at($t), 610); let _ = $t.v(); )*
                n += 1;
            });
            check(n == want, 611);
            if let Some(($($t,)*)) = q.slice() {
                $( check($t.len() == want, 612);
                   check($t.as_ptr() as usize % core::mem::align_of::<$T>() == 0, 613);
                   if want > 0 { let _ = $t[0].v() + $t[want - 1].v(); } )*
                reach(2);
            }
        }};
    }
    q!(9, 0; [O o, Byte b]);
    q!(13, 0; [Byte b, Big g, O o]);
    q!(9, 4; [O o, Byte b] .exclude::<&Big>());
    q!(3, 0; [O o, ZA z]);
    q!(24, 0; [Odd d, Byte b]);
    q!(6, 0; [ZA z, Big g]);
    q!(6, 16; [ZA z, Big g] .exclude::<&Odd>());
    q!(22, 1; [ZA z, Odd d, Big g] .exclude::<&O>());
    q!(31, 0; [ZA z, Odd d, Big g, O o, Byte b]);
    q!(16, 0; [Odd d]);
    q!(4, 2; [Big g] .exclude::<&ZA>());
    let mut n = 0;
    for (e, o, z, g) in w.query_all::<(Entity, Option<&O>, Option<&mut ZA>, &Big)>().iter() {
        check(w.contains_entity(e), 614);
        let _ = o.map(|o| check(at(o), 615));
        let _ = z.map(|z| check(at(z), 616));
        let _ = g.v();
        n += 1;
    }
    check(n <= m.n, 617);
}

fn make(w: &mut World, m: &mut M, set: u64, v: u64) {
    let (e, has) = match set {
        0 => (w.create((O::mk(v), Byte::mk(v))), 9),
        1 => (w.create((Big::mk(v), Byte::mk(v), O::mk(v))), 13),
        2 => (w.create((ZA, Odd::mk(v), Big::mk(v), Byte::mk(v), O::mk(v))), 31),
        3 => (w.create((Odd::mk(v), ZA)), 18),
        4 => (w.create((Odd::mk(v), Byte::mk(v))), 24),
        5 => (w.create((ZA, Big::mk(v))), 6),
        6 => (w.create((ZA, O::mk(v))), 3),
        _ => (w.create(()), 0),
    };
    m.e[m.n] = e;
    m.has[m.n] = has | 128;
    m.val[m.n] = v;
    m.n += 1;
}

/// Growth from empty through several reallocations, shrinking, growing again.
#[cfg(any(not(pick), h_c12_grow))]
#[no_mangle]
pub extern "C-unwind" fn h_c12_grow() {
    let base = live();
    let mut m = M { e: [ent(u32::MAX, 1); N], has: [0; N], val: [0; N], n: 0 };
    {
        let mut w = world(choose_layout(1));
        kinds(&w, &m);
        // two alternating symbolic component sets, any number of entities up to the bound
        let (s0, s1) = (choose(8, 20), choose(8, 22));
        let n = choose(param(2, 18), 23);
        let v = sym(8, 24) & 0xff;
        let mut i = 0;
        while i < n {
            make(&mut w, &mut m, if i & 1 == 0 { s0 } else { s1 }, if i == 3 { v } else { i });
            i += 1;
        }
        kinds(&w, &m);
        queries(&w, &m);
        // shrink by one of several patterns
        let how = choose(5, 25);
        let mut k = 0;
        while k < m.n {
            let gone = match how {
                0 => false,
                1 => true,
                2 => k & 1 == 0,
                3 => k & 1 == 1,
                _ => k >= m.n / 2,
            };
            if gone {
                if how == 3 {
                    w.delete::<(Byte, ZA)>(m.e[k]);
                    m.has[k] &= !10;
                } else {
                    check(w.destroy(m.e[k]), 618);
                    m.has[k] = 0;
                }
            }
            k += 1;
        }
        kinds(&w, &m);
        queries(&w, &m);
        if param(4, 255) == 255 && n <= 8 {
            w.set_layout(&lay(choose(6, 26)));
        }
        let mut i = 0;
        while i < 5 {
            make(&mut w, &mut m, s1, 40 + i);
            i += 1;
        }
        kinds(&w, &m);
        queries(&w, &m);
        note(m.n as u64);
        note(w.entities().len() as u64);
    }
    check(live() == base, 619);
    reach(1);
}

/// Components given to few entities of any index, so that slots are allocated in leaps.
#[cfg(any(not(pick), h_c12_sparse))]
#[no_mangle]
pub extern "C-unwind" fn h_c12_sparse() {
    let base = live();
    {
        let mut w = world(choose_layout(1));
        let n = param(2, 70);
        let mut es = alloc::vec::Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n {
            es.push(w.create(()));
            i += 1;
        }
        // in turn: any index, any of the indexes near powers of two, any of the two first
        let a = choose(n, 27) as usize;
        let near = [0, 1, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65];
        let b = near[choose(15, 28) as usize];
        assume(b < n as usize && a != b);
        let x = sym(8, 29) & 0xff;
        check(w.insert(es[a], (Byte::mk(x), O::mk(1), ZA)), 640);
        check(w.borrow::<Byte>().get(es[b]).is_none(), 641);
        check(w.insert(es[b], (Byte::mk(7), Big::mk(8))), 642);
        check(w.insert(es[b], (O::mk(9), ZA)), 643);
        check(w.borrow::<Byte>().get(es[a]).map(|c| c.v()) == Some(x), 644);
        check(w.borrow::<O>().get(es[a]).map(|c| c.v()) == Some(1), 645);
        check(w.borrow::<Byte>().get(es[b]).map(|c| c.v()) == Some(7), 646);
        check(w.borrow::<Big>().get(es[b]).map(|c| c.v()) == Some(8), 647);
        check(w.borrow::<O>().get(es[b]).map(|c| c.v()) == Some(9), 648);
        check(w.borrow::<Big>().get(es[a]).is_none(), 649);
        let last = es[n as usize - 1];
        check(w.contains::<(&Byte, &ZA)>(last) == (last == es[a] || last == es[b]), 650);
        let mut c = 0;
        w.for_each::<(&Byte, &O, &ZA)>(|_| c += 1);
        check(c == 2, 651);
        w.delete::<(Byte,)>(es[a]);
        check(w.destroy(es[b]), 652);
        check(w.borrow::<Byte>().is_empty() && w.borrow::<O>().len() == 1, 653);
        note(a as u64);
    }
    check(live() == base, 654);
    reach(1);
}

/// Unusual but safe calls: repeated types, forged handles, empty worlds.
#[cfg(any(not(pick), h_c12_odd))]
#[no_mangle]
pub extern "C-unwind" fn h_c12_odd() {
    let base = live();
    {
        let mut w = world(choose_layout(1));
        let mut m = M { e: [ent(u32::MAX, 1); N], has: [0; N], val: [0; N], n: 0 };
        let n = choose(3, 23);
        let mut i = 0;
        while i < n {
            let s = choose(8, 20);
            make(&mut w, &mut m, s, i);
            i += 1;
        }
        let any = crate::model::any_entity(200);
        let e = if n > 0 && flip(27) { m.e[0] } else { any };
        let alive = w.contains_entity(e);
        let c = choose(14, 28);
        let _ = catch(|| match c {
            0 => {
                let x = w.create((O(1), O(2)));
                w.delete::<(O, O)>(x);
            }
            1 => {
                w.insert(e, (Big::mk(1), ZA, Big::mk(2), ZA));
                let _ = w.remove::<(ZA, Big, ZA)>(e);
            }
            2 => {
                let n = w.extend((0..3).map(|i| (Byte(i), O(i), Byte(i)))).len();
                check(n == 3, 620);
            }
            3 => {
                let _ = w.remove::<(O, O, Byte)>(e);
            }
            4 => drop(w.borrow::<O>()[e].v()),
            5 => w.borrow_mut::<Big>()[e].0[3] = 3,
            6 => {
                w.query_all::<(&mut O, &mut O)>().iter().count();
            }
            7 => {
                let mut q = w.query_all::<(&O, &O, &Byte)>();
                if let Some((a, b, c)) = q.slice() {
                    check(a.len() == b.len() && b.len() == c.len() && a.as_ptr() == b.as_ptr(), 621);
                }
            }
            8 => {
                let mut q = w.query_one::<(&mut O, Option<&Big>, &Byte, Entity)>();
                if let Some((o, g, b, x)) = q.get(e) {
                    check(x == e && at(o) && g.map_or(true, |g| at(g)) && at(b), 622);
                }
            }
            9 => {
                let s = w.query_all::<Entity>().slice().map(|s| s.len());
                check(s.map_or(true, |s| s == w.entities().len()), 623);
            }
            10 => {
                let mut it = w.borrow_mut::<Odd>();
                for x in it.as_mut_slice() {
                    *x = Odd::mk(9);
                }
            }
            11 => {
                w.clear();
                w.insert(e, (O(1),));
                w.delete::<(O, Byte)>(e);
            }
            12 => {
                w.destroy(e);
                w.destroy(e);
                w.insert(e, (O(1), Byte(2)));
            }
            _ => {
                w.reset();
                let _ = w.remove::<(O, Big)>(e);
                w.create((O(3), Big::mk(1), Byte(2)));
            }
        });
        let _ = alive;
        let mut c = 0;
        w.for_each::<(&mut O, &mut Byte)>(|(o, b)| {
            check(at(o) && at(b), 624);
            o.0 = b.0;
            c += 1;
        });
        w.for_each::<(Entity, &mut Big, Option<&mut ZA>)>(|(x, g, z)| {
            check(at(g) && z.map_or(true, |z| at(z)), 625);
            g.0[0] = x.index as u64;
        });
        let l = w.entities().len();
        check(c <= l, 626);
        w.set_layout(&lay(choose(6, 26)));
        w.for_each::<(&mut O, &Byte)>(|_| c -= 1);
        check(c == 0, 627);
        note(l as u64);
    }
    check(live() == base, 628);
    reach(1);
}
