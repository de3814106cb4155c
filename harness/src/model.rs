//! Reference model: what the world should contain.
use crate::rt::*;
use core::num::NonZeroU32;
use sparsey::component::Component;
use sparsey::entity::Version;
use sparsey::{Entity, World};

/// A component kind used by the harnesses.
pub trait Kind: Component {
    const IX: usize;
    const BITS: u32;
    fn mk(v: u64) -> Self;
    fn v(&self) -> u64;
}

macro_rules! kind {
    ($N:ident, $ix:expr, $bits:expr, $T:ty) => {
        #[derive(Clone, Copy)]
        pub struct $N(pub $T);
        impl Kind for $N {
            const IX: usize = $ix;
            const BITS: u32 = $bits;
            #[inline(never)]
            fn mk(v: u64) -> Self {
                $N(v as $T)
            }
            #[inline(always)]
            fn v(&self) -> u64 {
                self.0 as u64
            }
        }
    };
}
kind!(A, 0, 32, u32);
kind!(B, 1, 64, u64);
kind!(C, 2, 16, u16);
kind!(D, 3, 8, u8);
// only in h_wide
kind!(E, 4, 32, u32);
kind!(F, 5, 8, u8);

pub const NK: usize = 6;
pub const N: usize = 16;

#[derive(Clone, Copy)]
pub struct Slot {
    pub e: Entity,
    pub live: bool,
    pub pend: bool,
    pub has: u8,
    pub val: [u64; NK],
}

#[derive(Clone, Copy)]
pub struct M {
    pub s: [Slot; N],
    pub n: usize,
}

pub fn ent(index: u32, version: u32) -> Entity {
    Entity::new(index, Version(NonZeroU32::new(version).unwrap()))
}
pub fn bits(e: Entity) -> u64 {
    ((e.version.0.get() as u64) << 32) | e.index as u64
}
/// A completely symbolic handle (any index, any non-zero version).
#[inline(never)]
pub fn any_entity(tag: u32) -> Entity {
    let i = sym(32, tag) as u32;
    let v = sym(32, tag + 1) as u32;
    assume(v != 0);
    // not NonZeroU32::new: no branch on a symbolic value
    Entity::new(i, Version(unsafe { NonZeroU32::new_unchecked(v) }))
}

impl M {
    pub fn new() -> M {
        let z = Slot { e: ent(u32::MAX, u32::MAX), live: false, pend: false, has: 0, val: [0; NK] };
        M { s: [z; N], n: 0 }
    }
    /// Records a newly issued handle; checks it was never issued before.
    pub fn issue(&mut self, e: Entity, live: bool, id: u32) -> usize {
        let mut k = 0;
        while k < self.n {
            check(bits(self.s[k].e) != bits(e), id);
            // an index comes back only with a strictly newer version
            check(self.s[k].e.index != e.index || self.s[k].e.version < e.version, id + 1);
            k += 1;
        }
        let i = self.n;
        self.n += 1;
        self.s[i] = Slot { e, live, pend: !live, has: 0, val: [0; NK] };
        i
    }
    pub fn live_count(&self) -> usize {
        let mut c = 0;
        let mut k = 0;
        while k < self.n {
            if self.s[k].live {
                c += 1;
            }
            k += 1;
        }
        c
    }
    pub fn count(&self, need: u8, not: u8) -> usize {
        let mut c = 0;
        let mut k = 0;
        while k < self.n {
            if self.matches(k, need, not) {
                c += 1;
            }
            k += 1;
        }
        c
    }
    pub fn matches(&self, k: usize, need: u8, not: u8) -> bool {
        self.s[k].live && self.s[k].has & need == need && self.s[k].has & not == 0
    }
    /// Index of a (concrete) handle; N when unknown.
    pub fn find(&self, e: Entity) -> usize {
        let mut k = 0;
        while k < self.n {
            if bits(self.s[k].e) == bits(e) {
                return k;
            }
            k += 1;
        }
        N
    }
    pub fn maintain(&mut self) {
        let mut k = 0;
        while k < self.n {
            if self.s[k].pend {
                self.s[k].pend = false;
                self.s[k].live = true;
            }
            k += 1;
        }
    }
    pub fn kill_all(&mut self) {
        let mut k = 0;
        while k < self.n {
            self.s[k].live = false;
            self.s[k].pend = false;
            self.s[k].has = 0;
            k += 1;
        }
    }
    pub fn kill(&mut self, k: usize) {
        self.s[k].live = false;
        self.s[k].has = 0;
    }
    pub fn put<T: Kind>(&mut self, k: usize, v: u64) {
        self.s[k].has |= 1 << T::IX;
        self.s[k].val[T::IX] = v;
    }
}

pub fn val<T: Kind>(tag: u32) -> u64 {
    sym(T::BITS, tag)
}

// ---------------- operations applied to world and model together ----------------

macro_rules! subset_ops {
    ($( $bits:pat => [$($T:ident $t:ident),*] );* $(;)?) => {
        pub fn create(w: &mut World, m: &mut M, set: u8) -> usize {
            match set {
                $( $bits => {
                    $( let $t = val::<$T>(100 + $T::IX as u32); )*
                    let e = w.create(($($T::mk($t),)*));
                    let k = m.issue(e, true, 10);
                    $( m.put::<$T>(k, $t); )*
                    k
                } )*
                _ => unreachable!(),
            }
        }
        /// Two entities at once.
        pub fn extend(w: &mut World, m: &mut M, set: u8) {
            match set {
                $( $bits => {
                    $( let $t = [val::<$T>(120 + $T::IX as u32), val::<$T>(140 + $T::IX as u32)]; )*
                    let es = {
                        let s = w.extend((0..2usize).map(|i| { let _ = i; ($($T::mk($t[i]),)*) }));
                        check(s.len() == 2, 24);
                        [s[0], s[1]]
                    };
                    let mut i = 0;
                    while i < 2 {
                        let k = m.issue(es[i], true, 10);
                        $( m.put::<$T>(k, $t[i]); )*
                        let _ = k;
                        i += 1;
                    }
                } )*
                _ => unreachable!(),
            }
        }
        pub fn insert(w: &mut World, m: &mut M, k: usize, set: u8) {
            match set {
                $( $bits => {
                    $( let $t = val::<$T>(110 + $T::IX as u32); )*
                    let ok = w.insert(m.s[k].e, ($($T::mk($t),)*));
                    check(ok == m.s[k].live, 20);
                    if m.s[k].live {
                        $( m.put::<$T>(k, $t); )*
                    }
                } )*
                _ => unreachable!(),
            }
        }
        pub fn remove(w: &mut World, m: &mut M, k: usize, set: u8) {
            match set {
                $( $bits => {
                    #[allow(unused)]
                    let ($($t,)*) = w.remove::<($($T,)*)>(m.s[k].e);
                    $(
                        check($t.is_some() == (m.s[k].has >> $T::IX & 1 == 1), 21);
                        if let Some(x) = $t {
                            check(x.v() == m.s[k].val[$T::IX], 22);
                        }
                        m.s[k].has &= !(1 << $T::IX);
                    )*
                } )*
                _ => unreachable!(),
            }
        }
        pub fn delete(w: &mut World, m: &mut M, k: usize, set: u8) {
            match set {
                $( $bits => {
                    w.delete::<($($T,)*)>(m.s[k].e);
                    $( m.s[k].has &= !(1 << $T::IX); )*
                } )*
                _ => unreachable!(),
            }
        }
    };
}
subset_ops! {
    0 => [];
    1 => [A a];
    2 => [B b];
    3 => [B b, A a];
    4 => [C c];
    5 => [A a, C c];
    6 => [C c, B b];
    7 => [A a, B b, C c];
    8 => [D d];
    9 => [D d, A a];
    10 => [B b, D d];
    11 => [D d, B b, A a];
    12 => [C c, D d];
    13 => [C c, A a, D d];
    14 => [D d, C c, B b];
    15 => [B b, D d, A a, C c];
}

pub fn destroy(w: &mut World, m: &mut M, k: usize) {
    let ok = w.destroy(m.s[k].e);
    check(ok == m.s[k].live, 23);
    if m.s[k].live {
        m.kill(k);
    }
}

// ---------------- whole-state checks ----------------

/// Liveness as reported by every liveness query.
#[inline(never)]
pub fn check_live(w: &World, m: &M) {
    let c = m.live_count();
    check(w.entities().len() == c, 30);
    check(w.is_empty() == (c == 0), 31);
    let mut seen = 0u32;
    for &e in w.entities() {
        let k = m.find(e);
        check(k < N, 32);
        check(m.s[k].live, 33);
        check(seen >> k & 1 == 0, 34);
        seen |= 1 << k;
    }
    let mut k = 0;
    while k < m.n {
        check(w.contains_entity(m.s[k].e) == m.s[k].live, 35);
        k += 1;
    }
}

/// Any handle at all is accepted exactly when it is that of a live entity.
#[inline(never)]
pub fn check_any_handle(w: &World, m: &M) {
    let e = any_entity(200);
    let mut expect = false;
    let mut k = 0;
    while k < m.n {
        expect |= (bits(e) == bits(m.s[k].e)) & m.s[k].live;
        k += 1;
    }
    check(w.contains_entity(e) == expect, 36);
}

/// The stored values of one kind, through a view.
#[inline(never)]
pub fn check_kind<T: Kind>(w: &World, m: &M) {
    let v = w.borrow::<T>();
    let bit = 1u8 << T::IX;
    check(v.len() == m.count(bit, 0), 40);
    check(v.is_empty() == (v.len() == 0), 41);
    check(v.entities().len() == v.len(), 42);
    check(v.as_slice().len() == v.len(), 43);
    let mut k = 0;
    while k < m.n {
        let e = m.s[k].e;
        let has = m.s[k].has & bit != 0;
        check(v.contains(e) == has, 44);
        match v.get(e) {
            Some(x) => {
                check(has, 45);
                check(x.v() == m.s[k].val[T::IX], 46);
            }
            None => check(!has, 47),
        }
        k += 1;
    }
    let mut i = 0;
    while i < v.len() {
        let k = m.find(v.entities()[i]);
        check(k < N, 48);
        check(v.as_slice()[i].v() == m.s[k].val[T::IX], 49);
        i += 1;
    }
}

pub fn check_kinds(w: &World, m: &M) {
    check_kind::<A>(w, m);
    check_kind::<B>(w, m);
    check_kind::<C>(w, m);
    check_kind::<D>(w, m);
}

// ---------------- layouts ----------------

pub const LAYOUTS: u64 = 8;
pub fn add_layout(b: &mut sparsey::world::WorldBuilder, l: u64) {
    match l {
        0 => {}
        1 => {
            b.add_group::<(A, B)>();
        }
        2 => {
            b.add_group::<(A, B)>().add_group::<(A, B, C)>();
        }
        3 => {
            b.add_group::<(C, A, B)>();
        }
        4 => {
            b.add_group::<(A, B)>().add_group::<(A, B, C, D)>();
        }
        5 => {
            b.add_group::<(A, B)>().add_group::<(D, C)>();
        }
        6 => {
            b.add_group::<(B, C)>().add_group::<(A, B, C)>().add_group::<(A, B, C, D)>();
        }
        7 => {
            b.add_group::<(D, C, B, A)>();
        }
        _ => unreachable!(),
    }
}
pub fn world(l: u64) -> World {
    let mut b = World::builder();
    add_layout(&mut b, l);
    b.register::<A>().register::<B>().register::<C>().register::<D>();
    b.build()
}

// ---------------- symbolic populations and operations ----------------

/// A symbolic subset of `kinds`; the empty one only when `empty`.
pub fn choose_set(kinds: u8, empty: bool, tag: u32) -> u8 {
    let lo = !empty as u64;
    let mut i = lo + choose((1u64 << kinds.count_ones()) - lo, tag);
    let mut set = 0;
    let mut b = 0;
    while b < NK as u32 {
        if kinds >> b & 1 == 1 {
            set |= ((i & 1) as u8) << b;
            i >>= 1;
        }
        b += 1;
    }
    set
}
/// A symbolic layout out of the bits of param 4.
pub fn choose_layout(tag: u32) -> u64 {
    let mask = param(4, (1 << LAYOUTS) - 1);
    let l = choose(LAYOUTS, tag);
    assume(mask >> l & 1 == 1);
    l
}
/// Kinds in use: param 3.
pub fn kinds() -> u8 {
    param(3, 15) as u8
}
/// Recycles up to param 7 indexes, so that later entities differ in version.
pub fn age(w: &mut World, m: &mut M) {
    let n = choose(param(7, 1) + 1, 19);
    let k0 = m.n;
    let mut i = 0;
    while i < n {
        let e = w.create(());
        m.issue(e, true, 10);
        i += 1;
    }
    // the last one first
    while i > 0 {
        i -= 1;
        destroy(w, m, k0 + i as usize);
    }
}
/// param 2 entities, each with a symbolic subset of the kinds.
pub fn populate(w: &mut World, m: &mut M) {
    age(w, m);
    let n = param(2, 2);
    let mut i = 0;
    while i < n {
        let set = choose_set(kinds(), true, 20);
        create(w, m, set);
        i += 1;
    }
}
/// One symbolic component operation on any issued handle, live or dead.
pub fn comp_op(w: &mut World, m: &mut M) {
    if narrow() {
        return narrow_op(w, m);
    }
    // 0 create; then insert, remove, delete, destroy for each handle; then the rarer operations
    let c = choose(1 + 4 * m.n as u64 + param(14, RARE), 21);
    if c == 0 {
        let set = choose_set(kinds(), true, 22);
        create(w, m, set);
        return;
    }
    if c > 4 * m.n as u64 {
        rare_op(w, m, c - 1 - 4 * m.n as u64);
        return;
    }
    let k = ((c - 1) >> 2) as usize;
    match (c - 1) & 3 {
        0 => {
            let set = choose_set(kinds(), false, 23);
            insert(w, m, k, set);
        }
        1 => {
            let set = choose_set(kinds(), false, 24);
            remove(w, m, k, set);
        }
        2 => {
            let set = choose_set(kinds(), false, 25);
            delete(w, m, k, set);
        }
        _ => {
            destroy(w, m, k);
            reach(40);
        }
    }
}
/// Whether operations come from a small set, for longer histories (param 15).
pub fn narrow() -> bool {
    param(15, 0) == 1
}
pub const CREATED: [u8; 2] = [7, 3];
/// (kind of operation, components): insert, remove, delete, destroy
pub const NARROW: [(u64, u8); 6] = [(0, 1), (0, 6), (1, 1), (2, 4), (2, 2), (3, 0)];
fn narrow_op(w: &mut World, m: &mut M) {
    let c = choose(2 + 6 * m.n as u64, 26) as usize;
    if c < 2 {
        create(w, m, CREATED[c]);
        return;
    }
    let k = (c - 2) / 6;
    let (kind, set) = NARROW[(c - 2) % 6];
    match kind {
        0 => insert(w, m, k, set),
        1 => remove(w, m, k, set),
        2 => delete(w, m, k, set),
        _ => {
            destroy(w, m, k);
            reach(40);
        }
    }
}
pub const RARE: u64 = 6;
/// extend, clear, deferred creation
fn rare_op(w: &mut World, m: &mut M, c: u64) {
    match c {
        0..=2 => extend(w, m, [kinds(), kinds() & 3, kinds() & 14][c as usize]),
        3 | 4 => {
            w.clear();
            m.kill_all();
            create(w, m, [kinds(), kinds() & 3][c as usize - 3]);
            reach(41);
        }
        _ => {
            let e = w.create_atomic();
            let k = m.issue(e, false, 10);
            check(!w.contains_entity(e), 25);
            w.maintain();
            m.maintain();
            insert(w, m, k, kinds() & 7);
        }
    }
}
pub fn comp_ops(w: &mut World, m: &mut M) {
    let n = param(1, 1);
    let mut i = 0;
    while i < n {
        comp_op(w, m);
        i += 1;
    }
}
/// Condenses the state for comparison between engine and compiled code.
pub fn note_state(m: &M) {
    let mut h = m.n as u64;
    let mut k = 0;
    while k < m.n {
        h = h.wrapping_mul(31).wrapping_add(m.s[k].has as u64 * 2 + m.s[k].live as u64);
        k += 1;
    }
    note(h);
}

/// The layouts as `GroupLayout`s.
pub fn layout(l: u64) -> sparsey::component::GroupLayout {
    let mut g = sparsey::component::GroupLayout::default();
    match l {
        1 => g.add_group::<(A, B)>(),
        2 => {
            g.add_group::<(C, B, A)>();
            g.add_group::<(A, B)>();
        }
        3 => g.add_group::<(C, A, B)>(),
        4 => {
            g.add_group::<(A, B)>();
            g.add_group::<(A, B, C, D)>();
        }
        5 => {
            g.add_group::<(A, B)>();
            g.add_group::<(D, C)>();
        }
        6 => {
            g.add_group::<(A, B, C, D)>();
            g.add_group::<(B, C)>();
            g.add_group::<(A, B, C)>();
        }
        7 => g.add_group::<(D, C, B, A)>(),
        _ => {}
    }
    g
}
