//! C05, C08: six component types, layouts of several families of nested groups.
use crate::model::*;
use crate::rt::*;
use crate::{mask, q_iter};
use sparsey::{Entity, World};

macro_rules! creates {
    ($( $bits:pat => [$($T:ident $t:ident),*] );* $(;)?) => {
        fn create6(w: &mut World, m: &mut M, set: u8) -> usize {
            match set {
                $( $bits => {
                    $( let $t = val::<$T>(100 + $T::IX as u32); )*
                    let e = w.create(($($T::mk($t),)*));
                    let k = m.issue(e, true, 10);
                    $( m.put::<$T>(k, $t); )*
                    k
                } )*
                _ => unreachable!(),
            }
        }
    };
}
creates! {
    0 => [];
    1 => [A a];
    2 => [B b];
    3 => [A a, B b];
    4 => [C c];
    5 => [C c, A a];
    6 => [B b, C c];
    7 => [B b, A a, C c];
    8 => [D d];
    9 => [D d, A a];
    10 => [D d, B b];
    11 => [D d, A a, B b];
    12 => [D d, C c];
    13 => [C c, D d, A a];
    14 => [B b, D d, C c];
    15 => [B b, C c, D d, A a];
    16 => [E e];
    17 => [A a, E e];
    18 => [E e, B b];
    19 => [B b, A a, E e];
    20 => [E e, C c];
    21 => [C c, A a, E e];
    22 => [B b, C c, E e];
    23 => [B b, C c, E e, A a];
    24 => [E e, D d];
    25 => [A a, E e, D d];
    26 => [D d, E e, B b];
    27 => [B b, A a, E e, D d];
    28 => [D d, E e, C c];
    29 => [C c, E e, A a, D d];
    30 => [C c, E e, D d, B b];
    31 => [A a, C c, B b, E e, D d];
    32 => [F f];
    33 => [A a, F f];
    34 => [B b, F f];
    35 => [F f, A a, B b];
    36 => [F f, C c];
    37 => [C c, A a, F f];
    38 => [F f, C c, B b];
    39 => [A a, C c, B b, F f];
    40 => [D d, F f];
    41 => [D d, A a, F f];
    42 => [F f, D d, B b];
    43 => [D d, A a, F f, B b];
    44 => [C c, F f, D d];
    45 => [C c, F f, D d, A a];
    46 => [B b, F f, C c, D d];
    47 => [A a, B b, C c, D d, F f];
    48 => [F f, E e];
    49 => [F f, E e, A a];
    50 => [F f, B b, E e];
    51 => [F f, B b, E e, A a];
    52 => [C c, E e, F f];
    53 => [A a, C c, F f, E e];
    54 => [F f, C c, B b, E e];
    55 => [E e, A a, F f, B b, C c];
    56 => [F f, D d, E e];
    57 => [E e, A a, F f, D d];
    58 => [B b, E e, F f, D d];
    59 => [D d, B b, F f, A a, E e];
    60 => [C c, D d, E e, F f];
    61 => [A a, F f, D d, E e, C c];
    62 => [B b, C c, F f, D d, E e];
    63 => [E e, C c, D d, A a, F f, B b];
}

/// Tuples that one operation inserts, removes or deletes.
macro_rules! ops {
    ($( $bits:pat => [$($T:ident $t:ident),*] );* $(;)?) => {
        const OPS: u64 = 0 $( + { let _ = stringify!($bits); 1 } )*;
        fn op6(w: &mut World, m: &mut M, k: usize, kind: u64, which: u64) {
            match which {
                $( $bits => match kind {
                    0 => {
                        $( let $t = val::<$T>(110 + $T::IX as u32); )*
                        check(w.insert(m.s[k].e, ($($T::mk($t),)*)) == m.s[k].live, 20);
                        if m.s[k].live {
                            $( m.put::<$T>(k, $t); )*
                        }
                    }
                    1 => {
                        let ($($t,)*) = w.remove::<($($T,)*)>(m.s[k].e);
                        $(
                            check($t.is_some() == (m.s[k].has >> $T::IX & 1 == 1), 21);
                            if let Some(x) = $t {
                                check(x.v() == m.s[k].val[$T::IX], 22);
                            }
                            m.s[k].has &= !(1 << $T::IX);
                        )*
                    }
                    _ => {
                        w.delete::<($($T,)*)>(m.s[k].e);
                        $( m.s[k].has &= !(1 << $T::IX); )*
                    }
                } )*
                _ => unreachable!(),
            }
        }
    };
}
ops! {
    0 => [A a];
    1 => [B b];
    2 => [C c];
    3 => [D d];
    4 => [E e];
    5 => [F f];
    6 => [A a, D d];
    7 => [D d, A a];
    8 => [C c, B b];
    9 => [E e, F f, B b];
}

/// Groups of each family, as sets of kinds, smallest first.
const FAMILIES: [&[&[u8]]; 6] = [
    &[&[0b000011, 0b000111], &[0b011000, 0b111000]],
    &[&[0b000011, 0b000111, 0b001111], &[0b110000]],
    &[&[0b000011], &[0b001100], &[0b110000]],
    &[&[0b000111, 0b111111]],
    &[&[0b000011, 0b001111, 0b111111]],
    &[&[0b110000, 0b111000, 0b111100, 0b111110, 0b111111]],
];
fn world6(l: u64) -> World {
    let mut b = World::builder();
    match l {
        0 => b.add_group::<(A, B)>().add_group::<(E, D, F)>().add_group::<(A, C, B)>().add_group::<(E, D)>(),
        1 => b.add_group::<(A, B, C, D)>().add_group::<(A, B)>().add_group::<(F, E)>().add_group::<(C, A, B)>(),
        2 => b.add_group::<(A, B)>().add_group::<(C, D)>().add_group::<(F, E)>(),
        3 => b.add_group::<(A, B, C)>().add_group::<(A, B, C, D, E, F)>(),
        4 => b.add_group::<(A, B)>().add_group::<(A, B, C, D, E, F)>().add_group::<(A, B, C, D)>(),
        _ => b
            .add_group::<(E, F)>()
            .add_group::<(D, C, E, F)>()
            .add_group::<(D, E, F)>()
            .add_group::<(A, B, C, D, E, F)>()
            .add_group::<(B, C, D, E, F)>(),
    };
    b.register::<F>().register::<A>().register::<B>().register::<E>().register::<C>().register::<D>();
    b.build()
}
fn must(l: u64, need: u8, not: u8) -> bool {
    for f in FAMILIES[l as usize] {
        for (i, &g) in f.iter().enumerate() {
            if need == g && (not == 0 || i + 1 < f.len() && not == f[i + 1] & !g && not.count_ones() == 1) {
                return true;
            }
        }
    }
    not == 0 && need.count_ones() == 1
}

/// A few entities with given components, then param 2 symbolic ones and param 1 operations.
fn setup6() -> (World, M, u64) {
    let mask = param(4, 63);
    let l = choose(6, 1);
    assume(mask >> l & 1 == 1);
    let mut w = world6(l);
    let mut m = M::new();
    let mut i = 0;
    while i < param(9, 3) as usize {
        create6(&mut w, &mut m, [0b011011, 0b111111, 0b100110, 0b011001][i]);
        i += 1;
    }
    let mut i = 0;
    while i < param(2, 1) {
        let set = choose(64, 20) as u8;
        create6(&mut w, &mut m, set);
        i += 1;
    }
    let mut i = 0;
    while i < param(1, 1) {
        let k = choose(m.n as u64, 21) as usize;
        match choose(4, 22) {
            3 => destroy(&mut w, &mut m, k),
            kind => {
                let which = choose(OPS, 23);
                op6(&mut w, &mut m, k, kind, which);
            }
        }
        reach(40);
        i += 1;
    }
    (w, m, l)
}

fn kinds6(w: &World, m: &M) {
    check_kinds(w, m);
    check_kind::<E>(w, m);
    check_kind::<F>(w, m);
}

macro_rules! shape {
    ($w:expr, $m:expr; [$($G:ident $g:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        let mut q = w.query_all::<(Entity, $(&$G,)*)>().include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
        let mut seen = 0u32;
        q.for_each(|(e, $($g,)*)| {
            let k = m.find(e);
            check(k < N && m.matches(k, need, not), 600);
            check(seen >> k & 1 == 0, 601);
            seen |= 1 << k;
            $( check($g.v() == m.s[k].val[<$G as Kind>::IX], 602); )*
        });
        check(seen.count_ones() as usize == m.count(need, not), 603);
        note(seen as u64);
    }};
}

/// Queries within and across families.
#[cfg(any(not(pick), h_c05_wide))]
#[no_mangle]
pub extern "C-unwind" fn h_c05_wide() {
    let (w, m, _) = setup6();
    let (w, m) = (&w, &m);
    note_state(m);
    kinds6(w, m);
    shape!(w, m; [A a, B b] [] []);
    shape!(w, m; [A a, D d] [] []);
    shape!(w, m; [A a, E e] [] []);
    shape!(w, m; [B b, D d] [] []);
    shape!(w, m; [F f, C c] [] []);
    shape!(w, m; [B b, E e] [] []);
    shape!(w, m; [A a, F f] [] []);
    shape!(w, m; [F f, B b] [] []);
    shape!(w, m; [A a, C c, B b] [] []);
    shape!(w, m; [F f, E e, D d] [] []);
    shape!(w, m; [A a, B b, D d, E e] [] []);
    shape!(w, m; [A a, B b, C c, D d, E e, F f] [] []);
    shape!(w, m; [A a, B b] [] [C c]);
    shape!(w, m; [E e, D d] [] [F f]);
    shape!(w, m; [A a, B b] [] [F f]);
    shape!(w, m; [E e, D d] [] [C c]);
    shape!(w, m; [A a, B b] [] [D d]);
    shape!(w, m; [A a, B b] [] [D d, E e]);
    shape!(w, m; [A a, B b] [] [C c, D d]);
    shape!(w, m; [E e, F f] [] [A a, B b]);
    shape!(w, m; [A a, B b, C c] [] [D d]);
    shape!(w, m; [A a, B b, C c] [] [F f]);
    shape!(w, m; [A a, B b, C c] [] [D d, E e, F f]);
    shape!(w, m; [A a, B b, C c, D d] [] [E e, F f]);
    shape!(w, m; [C c, D d] [] [A a]);
    shape!(w, m; [C c, D d, E e, F f] [] [B b]);
    shape!(w, m; [D d, E e, F f] [] [C c]);
    shape!(w, m; [E e, F f] [] [D d]);
    shape!(w, m; [E e, F f] [] [B b]);
    shape!(w, m; [A a] [] [F f]);
    shape!(w, m; [A a] [D d] []);
    shape!(w, m; [A a] [B b] [C c]);
    shape!(w, m; [D d] [E e] [C c]);
    shape!(w, m; [A a] [B b] [F f, E e]);
    shape!(w, m; [C c] [A a, B b] [F f]);
    shape!(w, m; [] [E e, D d] [F f]);
    reach(1);
}

macro_rules! sl {
    ($w:expr, $m:expr, $l:expr; [$($G:ident $g:ident),*] [$($I:ident $i:ident),*] [$($X:ident $x:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = mask!($($G $g),*) | mask!($($I $i),*);
        let not = mask!($($X $x),*);
        let mut q = w.query_all::<(Entity, $(&$G,)*)>().include::<($(&$I,)*)>().exclude::<($(&$X,)*)>();
        match q.slice() {
            Some((es, $($g,)*)) => {
                check(es.len() == m.count(need, not), 610);
                $( check($g.len() == es.len(), 611); )*
                let mut seen = 0u32;
                let mut i = 0;
                while i < es.len() {
                    let k = m.find(es[i]);
                    check(k < N && m.matches(k, need, not) && seen >> k & 1 == 0, 612);
                    seen |= 1 << k;
                    $( check($g[i].v() == m.s[k].val[<$G as Kind>::IX], 613); )*
                    i += 1;
                }
                note(seen as u64);
                reach(if not != 0 { 3 } else { 2 });
            }
            None => {
                check(!must($l, need, not), 614);
                reach(4);
            }
        }
    }};
}

/// Slices within and across families.
#[cfg(any(not(pick), h_c08_wide))]
#[no_mangle]
pub extern "C-unwind" fn h_c08_wide() {
    let (w, m, l) = setup6();
    let (w, m) = (&w, &m);
    note_state(m);
    sl!(w, m, l; [A a, B b] [] []);
    sl!(w, m, l; [A a, E e] [] []);
    sl!(w, m, l; [B b, D d] [] []);
    sl!(w, m, l; [C c, D d] [] []);
    sl!(w, m, l; [F f, E e] [] []);
    sl!(w, m, l; [D d, E e] [] []);
    sl!(w, m, l; [A a, F f] [] []);
    sl!(w, m, l; [A a, C c, B b] [] []);
    sl!(w, m, l; [F f, E e, D d] [] []);
    sl!(w, m, l; [A a, B b, C c, D d] [] []);
    sl!(w, m, l; [F f, E e, D d, C c] [] []);
    sl!(w, m, l; [B b, F f, E e, D d, C c] [] []);
    sl!(w, m, l; [A a, B b, C c, D d, E e, F f] [] []);
    sl!(w, m, l; [A a, B b] [] [C c]);
    sl!(w, m, l; [E e, D d] [] [F f]);
    sl!(w, m, l; [A a, B b] [] [F f]);
    sl!(w, m, l; [A a, B b] [] [C c, D d]);
    sl!(w, m, l; [E e, D d] [] [C c]);
    sl!(w, m, l; [A a, B b, C c] [] [D d]);
    sl!(w, m, l; [A a, B b, C c] [] [D d, E e, F f]);
    sl!(w, m, l; [D d, E e, F f] [] [C c]);
    sl!(w, m, l; [D d, E e, F f] [] [B b]);
    sl!(w, m, l; [E e, F f] [] [D d]);
    sl!(w, m, l; [C c, D d, E e, F f] [] [B b]);
    sl!(w, m, l; [B b, C c, D d, E e, F f] [] [A a]);
    sl!(w, m, l; [E e] [D d] [F f]);
    sl!(w, m, l; [C c] [D d, E e, F f] [B b]);
    sl!(w, m, l; [B b] [A a] []);
    sl!(w, m, l; [] [F f, E e] []);
    reach(1);
}
