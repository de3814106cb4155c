//! C04, C06, C07, C08: tuples of 5 to 16 component types.
use crate::rt::*;
use sparsey::entity::Version;
use sparsey::{Entity, World};

#[derive(Clone, Copy)]
pub struct T<const I: usize>(u16);
/// One more, on the first three entities.
pub struct U(u8);

/// What an item shows; `set` writes through it where it can.
trait Part {
    fn v(&self) -> Option<u64>;
    fn set(&mut self, _v: u64) -> bool {
        false
    }
}
impl<const I: usize> Part for &T<I> {
    fn v(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
}
impl<const I: usize> Part for &mut T<I> {
    fn v(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
    fn set(&mut self, v: u64) -> bool {
        self.0 = v as u16;
        true
    }
}
impl<const I: usize> Part for Option<&T<I>> {
    fn v(&self) -> Option<u64> {
        self.map(|x| x.0 as u64)
    }
}
impl<const I: usize> Part for Option<&mut T<I>> {
    fn v(&self) -> Option<u64> {
        self.as_ref().map(|x| x.0 as u64)
    }
    fn set(&mut self, v: u64) -> bool {
        match self {
            Some(x) => {
                x.0 = v as u16;
                true
            }
            None => false,
        }
    }
}

macro_rules! q {
    ($l:lifetime $i:tt r) => { &$l T<$i> };
    ($l:lifetime $i:tt w) => { &$l mut T<$i> };
    ($l:lifetime $i:tt o) => { Option<&$l T<$i>> };
    ($l:lifetime $i:tt p) => { Option<&$l mut T<$i>> };
}
macro_rules! optional {
    (r) => { false };
    (w) => { false };
    (o) => { true };
    (p) => { true };
}

/// `PART` is the number of the property.
macro_rules! arity {
    ($f:ident $n:literal; $($i:tt $m1:tt $m2:tt),*) => {
        fn $f<const PART: u32>() {
            type Set = ($(T<$i>,)*);
            type Q1<'a> = ($(q!('a $i $m1),)*);
            type Q2<'a> = ($(q!('a $i $m2),)*);
            type All<'a> = ($(&'a T<$i>,)*);
            // the expected components of four entities; T<0> tells them apart
            let l = choose(4, 1);
            let mut b = World::builder();
            b.register::<U>();
            match l {
                1 => drop(b.add_group::<Set>()),
                2 => drop(b.add_group::<(T<1>, T<0>)>().add_group::<Set>()),
                3 => drop(b.add_group::<(T<{ $n - 1 }>, T<0>)>()),
                _ => {}
            }
            $( b.register::<T<$i>>(); )*
            let mut w = b.build();
            let mut x = [[None; $n]; 4];
            let mut new = [0u64; $n];
            $( {
                for k in [0, 1, 3] {
                    x[k][$i] = Some(if $i == 0 { k as u64 } else { sym(16, 100 + $i) });
                }
                new[$i] = if $i == 0 { 7 } else { sym(16, 130 + $i) };
            } )*
            let mk = |v: &[Option<u64>; $n]| -> Set { ($(T::<$i>(v[$i].unwrap() as u16),)*) };
            let mut e = [w.create(mk(&x[0])), w.create(mk(&x[1])), w.create((U(9),)), w.entities()[0]];
            let last = mk(&x[3]);
            e[3] = w.extend([last])[0];
            let j = choose($n, 2) as usize;
            match j {
                $( $i => w.delete::<(T<$i>,)>(e[1]), )*
                _ => unreachable!(),
            }
            x[1][j] = None;
            w.insert(e[1], (U(8),));
            w.insert(e[0], (U(7),));

            fn all(w: &World, e: &[Entity; 4], x: &[[Option<u64>; $n]; 4], id: u32) {
                let mut k = 0;
                while k < 4 {
                    $( check(w.query_one::<&T<$i>>().get(e[k]).map(|v| v.0 as u64) == x[k][$i], id); )*
                    k += 1;
                }
            }
            if PART == 4 {
                all(&w, &e, &x, 700);
                let how = choose(5, 3);
                let tup: Set = ($(T::<$i>(new[$i] as u16),)*);
                if how < 2 {
                    let r = w.remove::<Set>(e[how as usize]);
                    $( check(r.$i.map(|v| v.0 as u64) == x[how as usize][$i], 701); )*
                    x[how as usize] = [None; $n];
                    reach(2);
                } else if how == 2 {
                    w.delete::<Set>(e[3]);
                    x[3] = [None; $n];
                } else {
                    let k = (how - 2) as usize;
                    check(w.insert(e[k], tup), 702);
                    x[k] = [$(Some(new[$i]),)*];
                    reach(3);
                }
                all(&w, &e, &x, 703);
            }
            if PART == 6 {
                let mut seen = 0u32;
                for mut y in w.query_all::<Q1>().iter() {
                    let k = y.0.v().unwrap() as usize;
                    check(k < 4, 710);
                    seen |= 1 << k;
                    $( {
                        check(y.$i.v() == x[k][$i], 711);
                        if y.$i.set(new[$i]) {
                            x[k][$i] = Some(new[$i]);
                        }
                    } )*
                }
                check(seen == 0b1001, 712);
                all(&w, &e, &x, 713);
                let mut seen = 0u32;
                w.for_each::<Q2>(|y| {
                    let mut y = y;
                    let k = y.0.v().unwrap() as usize;
                    check(k < 4, 714);
                    check(seen >> k & 1 == 0, 715);
                    seen |= 1 << k;
                    $( {
                        check(y.$i.v() == x[k][$i], 716);
                        if y.$i.set(new[$i] ^ 1) {
                            x[k][$i] = Some(new[$i] ^ 1);
                        }
                    } )*
                });
                let opt = [$(optional!($m2),)*][j];
                if opt {
                    reach(2);
                }
                check(seen == if opt { 0b1011 } else { 0b1001 }, 717);
                all(&w, &e, &x, 718);
                let mut seen = 0;
                for y in w.query_all::<Entity>().include::<All>().iter() {
                    seen += if y == e[0] { 1 } else if y == e[3] { 100 } else { 10000 };
                }
                check(seen == 101, 719);
                let mut seen = 0;
                for (y, u) in w.query_all::<(Entity, &U)>().exclude::<All>().iter() {
                    check(u.0 == 9, 721);
                    seen += if y == e[2] { 1 } else { 100 };
                }
                check(seen == 1, 720);
            }
            if PART == 7 {
                let k = choose(4, 4) as usize;
                let full = k == 0 || k == 3;
                check(w.contains::<All>(e[k]) == full, 730);
                check(w.query_one::<Q1>().contains(e[k]) == full, 731);
                match w.query_one::<Q1>().get(e[k]) {
                    Some(mut y) => {
                        check(full, 732);
                        $( {
                            check(y.$i.v() == x[k][$i], 733);
                            if y.$i.set(new[$i]) {
                                x[k][$i] = Some(new[$i]);
                            }
                        } )*
                        reach(2);
                    }
                    None => check(!full, 734),
                }
                all(&w, &e, &x, 735);
                let need = [$(!optional!($m2),)*];
                let mut has = true;
                $( has &= !need[$i] || x[k][$i].is_some(); )*
                let got = w.query_one::<Q2>().map(e[k], |mut y| {
                    $( {
                        check(y.$i.v() == x[k][$i], 736);
                        if y.$i.set(new[$i] ^ 1) {
                            x[k][$i] = Some(new[$i] ^ 1);
                        }
                    } )*
                });
                check(got.is_some() == has, 737);
                if has && !full {
                    reach(3);
                }
                all(&w, &e, &x, 738);
                check(w.query_one::<Entity>().include::<All>().contains(e[k]) == full, 739);
                check(w.query_one::<Entity>().exclude::<All>().contains(e[k]) == (k == 2), 740);
                check(!w.contains::<All>(any_handle(e[0])), 742);
            }
            if PART == 8 {
                let mut q = w.query_all::<Q1>();
                match q.slice() {
                    Some(y) => {
                        $( check(y.$i.len() == 2, 750); )*
                        let mut seen = 0u32;
                        let mut p = 0;
                        while p < 2 {
                            let k = y.0[p].0 as usize;
                            check(k < 4, 751);
                            seen |= 1 << k;
                            $( check(Some(y.$i[p].0 as u64) == x[k][$i], 752); )*
                            p += 1;
                        }
                        check(seen == 0b1001, 753);
                        reach(2);
                    }
                    None => check(l != 1 && l != 2, 754),
                }
                drop(q);
                check(w.query_all::<()>().include::<All>().slice().is_some() || l == 0 || l == 3, 755);
                match w.query_all::<Entity>().include::<All>().slice() {
                    Some(s) => {
                        check(s.len() == 2, 756);
                        check(s[0] == e[0] && s[1] == e[3] || s[0] == e[3] && s[1] == e[0], 757);
                        reach(3);
                    }
                    None => check(l != 1 && l != 2, 758),
                }
            }
            note(l);
            note(j as u64);
            for k in 0..4 {
                $( note(x[k][$i].unwrap_or(1 << 20)); )*
            }
            if l == 1 && j == 1 {
                reach(1);
            }
        }
    };
}

/// The same index at any other version.
fn any_handle(e: Entity) -> Entity {
    let v = sym(32, 3) as u32;
    assume(v != 0);
    let v = Version(unsafe { core::num::NonZeroU32::new_unchecked(v) });
    assume(v != e.version);
    Entity::new(e.index, v)
}

arity!(a5 5; 0 r r, 1 w p, 2 r w, 3 r r, 4 w o);
arity!(a6 6; 0 r r, 1 r w, 2 r r, 3 w o, 4 r p, 5 r w);
arity!(a7 7; 0 r r, 1 r r, 2 w o, 3 r p, 4 r w, 5 w r, 6 r o);
arity!(a8 8; 0 r r, 1 w o, 2 r p, 3 r w, 4 w r, 5 r o, 6 r p, 7 w w);
arity!(a9 9; 0 r r, 1 r p, 2 r w, 3 w r, 4 r o, 5 r p, 6 w w, 7 r r, 8 r o);
arity!(a10 10; 0 r r, 1 r w, 2 w r, 3 r o, 4 r p, 5 w w, 6 r r, 7 r o, 8 w p, 9 r w);
arity!(a11 11; 0 r r, 1 w r, 2 r o, 3 r p, 4 w w, 5 r r, 6 r o, 7 w p, 8 r w, 9 r r, 10 w o);
arity!(a12 12; 0 r r, 1 r o, 2 r p, 3 w w, 4 r r, 5 r o, 6 w p, 7 r w, 8 r r, 9 w o, 10 r p, 11 r w);
arity!(a13 13; 0 r r, 1 r p, 2 w w, 3 r r, 4 r o, 5 w p, 6 r w, 7 r r, 8 w o, 9 r p, 10 r w, 11 w r, 12 r o);
arity!(a14 14; 0 r r, 1 w w, 2 r r, 3 r o, 4 w p, 5 r w, 6 r r, 7 w o, 8 r p, 9 r w, 10 w r, 11 r o, 12 r p, 13 w w);
arity!(a15 15; 0 r r, 1 r r, 2 r o, 3 w p, 4 r w, 5 r r, 6 w o, 7 r p, 8 r w, 9 w r, 10 r o, 11 r p, 12 w w, 13 r r, 14 r o);
arity!(a16 16; 0 r r, 1 r o, 2 w p, 3 r w, 4 r r, 5 w o, 6 r p, 7 r w, 8 w r, 9 r o, 10 r p, 11 w w, 12 r r, 13 r o, 14 w p, 15 r w);

fn any<const PART: u32>() {
    match choose(12, 5) {
        0 => a5::<PART>(),
        1 => a6::<PART>(),
        2 => a7::<PART>(),
        3 => a8::<PART>(),
        4 => a9::<PART>(),
        5 => a10::<PART>(),
        6 => a11::<PART>(),
        7 => a12::<PART>(),
        8 => a13::<PART>(),
        9 => a14::<PART>(),
        10 => a15::<PART>(),
        11 => a16::<PART>(),
        _ => unreachable!(),
    }
}

#[cfg(any(not(pick), h_c04_arity))]
#[no_mangle]
pub extern "C-unwind" fn h_c04_arity() {
    any::<4>()
}
#[cfg(any(not(pick), h_c06_arity))]
#[no_mangle]
pub extern "C-unwind" fn h_c06_arity() {
    any::<6>()
}
#[cfg(any(not(pick), h_c07_arity))]
#[no_mangle]
pub extern "C-unwind" fn h_c07_arity() {
    any::<7>()
}
#[cfg(any(not(pick), h_c08_arity))]
#[no_mangle]
pub extern "C-unwind" fn h_c08_arity() {
    any::<8>()
}
