//! C11, C20: ownership of component values, with and without panics in user code.
use crate::model::{choose_layout, choose_set, kinds};
use crate::rt::*;
use alloc::boxed::Box;
use sparsey::component::{Component, GroupLayout};
use sparsey::{Entity, World};

// ---------------- values that know whether they were dropped ----------------

pub static mut DROPPED: u64 = 0;
static mut NEXT: u64 = 1;
static mut ZLIVE: i64 = 0;
/// Values whose destructor panics (once).
static mut BOMB: u64 = 0;

fn next() -> u64 {
    unsafe {
        let i = NEXT;
        NEXT += 1;
        assume(i < 64);
        i
    }
}
fn dropped(id: u64) {
    unsafe {
        check(id > 0 && id < NEXT, 500);
        check(DROPPED >> id & 1 == 0, 501);
        DROPPED |= 1 << id;
        if BOMB >> id & 1 == 1 {
            BOMB = 0;
            reach(9);
            boom()
        }
    }
}
fn is_dropped(id: u64) -> bool {
    unsafe { DROPPED >> id & 1 == 1 }
}

pub trait Dk: Component {
    const IX: usize;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
}
pub struct T(u8);
pub struct X(Box<u64>);
pub struct Z;
#[repr(align(32))]
pub struct W([u64; 5]);

impl Drop for T {
    fn drop(&mut self) {
        dropped(self.0 as u64)
    }
}
impl Drop for X {
    fn drop(&mut self) {
        dropped(*self.0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe {
            ZLIVE -= 1;
            check(ZLIVE >= 0, 502);
        }
    }
}
impl Drop for W {
    fn drop(&mut self) {
        check(self.0[0] == self.0[4], 503);
        dropped(self.0[0])
    }
}
impl Dk for T {
    const IX: usize = 0;
    fn mk(id: u64) -> Self {
        T(id as u8)
    }
    fn id(&self) -> u64 {
        self.0 as u64
    }
}
impl Dk for X {
    const IX: usize = 1;
    fn mk(id: u64) -> Self {
        X(Box::new(id))
    }
    fn id(&self) -> u64 {
        *self.0
    }
}
impl Dk for Z {
    const IX: usize = 2;
    fn mk(_: u64) -> Self {
        unsafe { ZLIVE += 1 };
        Z
    }
    fn id(&self) -> u64 {
        1
    }
}
impl Dk for W {
    const IX: usize = 3;
    fn mk(id: u64) -> Self {
        W([id; 5])
    }
    fn id(&self) -> u64 {
        self.0[0]
    }
}
/// A new value of the kind with index `ix`.
fn fresh(ix: usize) -> u64 {
    if ix == Z::IX {
        1
    } else {
        next()
    }
}

// ---------------- model ----------------

pub const N: usize = 12;
#[derive(Clone, Copy)]
pub struct Slot {
    e: Entity,
    live: bool,
    id: [u64; 4],
}
pub struct M {
    s: [Slot; N],
    n: usize,
    /// values expected to have been dropped, and zero-sized values expected to be alive
    gone: u64,
    zlive: i64,
}
impl M {
    fn new() -> M {
        let z = Slot { e: crate::model::ent(u32::MAX, u32::MAX), live: false, id: [0; 4] };
        M { s: [z; N], n: 0, gone: 0, zlive: 0 }
    }
    fn find(&self, e: Entity) -> usize {
        let mut k = 0;
        while k < self.n && self.s[k].e != e {
            k += 1;
        }
        if k < self.n {
            k
        } else {
            N
        }
    }
    fn issue(&mut self, e: Entity) -> usize {
        check(self.find(e) == N, 504);
        self.s[self.n] = Slot { e, live: true, id: [0; 4] };
        self.n += 1;
        self.n - 1
    }
    fn lose(&mut self, ix: usize, id: u64) {
        if id == 0 {
        } else if ix == Z::IX {
            self.zlive -= 1;
        } else {
            self.gone |= 1 << id;
        }
    }
    fn clear_slot(&mut self, k: usize) {
        let mut c = 0;
        while c < 4 {
            self.lose(c, self.s[k].id[c]);
            self.s[k].id[c] = 0;
            c += 1;
        }
    }
    fn kill_all(&mut self) {
        let mut k = 0;
        while k < self.n {
            self.clear_slot(k);
            self.s[k].live = false;
            k += 1;
        }
    }
    fn has(&self, k: usize) -> u8 {
        let mut r = 0;
        let mut c = 0;
        while c < 4 {
            r |= ((self.s[k].id[c] != 0) as u8) << c;
            c += 1;
        }
        r
    }
    fn count(&self, need: u8, not: u8) -> usize {
        let mut n = 0;
        let mut k = 0;
        while k < self.n {
            n += (self.s[k].live && self.has(k) & need == need && self.has(k) & not == 0) as usize;
            k += 1;
        }
        n
    }
    fn verify(&self, id: u32) {
        unsafe {
            check(DROPPED == self.gone, id);
            check(ZLIVE == self.zlive, id + 1);
        }
    }
}

macro_rules! ops {
    ($( $bits:pat => [$($K:ident $t:ident),*] );* $(;)?) => {
        fn create(w: &mut World, m: &mut M, set: u8) -> usize {
            match set {
                $( $bits => {
                    $( let $t = fresh($K::IX); )*
                    let e = w.create(($($K::mk($t),)*));
                    let k = m.issue(e);
                    $( m.s[k].id[$K::IX] = $t; m.zlive += ($K::IX == Z::IX) as i64; )*
                    k
                } )*
                _ => unreachable!(),
            }
        }
        fn insert(w: &mut World, m: &mut M, k: usize, set: u8) {
            match set {
                $( $bits => {
                    $( let $t = fresh($K::IX); m.zlive += ($K::IX == Z::IX) as i64; )*
                    let ok = w.insert(m.s[k].e, ($($K::mk($t),)*));
                    check(ok == m.s[k].live, 505);
                    $(
                        if ok {
                            m.lose($K::IX, m.s[k].id[$K::IX]);
                            m.s[k].id[$K::IX] = $t;
                        } else {
                            m.lose($K::IX, $t);
                        }
                    )*
                } )*
                _ => unreachable!(),
            }
        }
        fn remove(w: &mut World, m: &mut M, k: usize, set: u8) {
            match set {
                $( $bits => {
                    #[allow(unused)]
                    let ($($t,)*) = w.remove::<($($K,)*)>(m.s[k].e);
                    m.verify(510);
                    $(
                        check($t.as_ref().map_or(0, |x| x.id()) == m.s[k].id[$K::IX], 512);
                        m.lose($K::IX, m.s[k].id[$K::IX]);
                        m.s[k].id[$K::IX] = 0;
                        drop($t);
                    )*
                } )*
                _ => unreachable!(),
            }
        }
        fn delete(w: &mut World, m: &mut M, k: usize, set: u8) {
            match set {
                $( $bits => {
                    w.delete::<($($K,)*)>(m.s[k].e);
                    $(
                        m.lose($K::IX, m.s[k].id[$K::IX]);
                        m.s[k].id[$K::IX] = 0;
                    )*
                } )*
                _ => unreachable!(),
            }
        }
        /// `n` entities; the iterator panics before item `bad`.
        fn extend(w: &mut World, m: &mut M, set: u8, n: usize, bad: usize) {
            match set {
                $( $bits => {
                    let mut ids = [[0u64; 4]; 4];
                    let es = w.extend((0..n).map(|i| {
                        if i == bad {
                            boom()
                        }
                        $( ids[i][$K::IX] = fresh($K::IX); )*
                        ($($K::mk(ids[i][$K::IX]),)*)
                    }));
                    check(es.len() == n, 513);
                    let mut i = 0;
                    while i < n {
                        let k = m.issue(es[i]);
                        $( m.s[k].id[$K::IX] = ids[i][$K::IX]; m.zlive += ($K::IX == Z::IX) as i64; )*
                        i += 1;
                    }
                } )*
                _ => unreachable!(),
            }
        }
    };
}
ops! {
    0 => [];
    1 => [T t];
    2 => [X x];
    3 => [T t, X x];
    4 => [Z z];
    5 => [Z z, T t];
    6 => [Z z, X x];
    7 => [X x, T t, Z z];
    8 => [W w];
    9 => [T t, W w];
    10 => [W w, X x];
    11 => [X x, W w, T t];
    12 => [W w, Z z];
    13 => [W w, Z z, T t];
    14 => [Z z, W w, X x];
    15 => [W w, T t, Z z, X x];
}

fn destroy(w: &mut World, m: &mut M, k: usize) {
    let ok = w.destroy(m.s[k].e);
    check(ok == m.s[k].live, 514);
    m.s[k].live = false;
    m.clear_slot(k);
}

fn lay(l: u64) -> GroupLayout {
    let mut g = GroupLayout::default();
    match l {
        1 => g.add_group::<(T, X)>(),
        2 => {
            g.add_group::<(T, X)>();
            g.add_group::<(Z, T, X)>();
        }
        3 => g.add_group::<(Z, T, X)>(),
        4 => {
            g.add_group::<(T, X)>();
            g.add_group::<(T, X, Z, W)>();
        }
        5 => {
            g.add_group::<(T, X)>();
            g.add_group::<(W, Z)>();
        }
        6 => {
            g.add_group::<(X, Z)>();
            g.add_group::<(T, X, Z)>();
            g.add_group::<(T, X, Z, W)>();
        }
        7 => g.add_group::<(W, Z, X, T)>(),
        _ => {}
    }
    g
}
fn world(l: u64) -> World {
    let mut w = World::new(&lay(l));
    w.register::<T>();
    w.register::<X>();
    w.register::<Z>();
    w.register::<W>();
    w
}

/// The stored values are the ones expected, none of them dropped.
fn stored<K: Dk>(w: &World, m: &M) {
    let v = w.borrow::<K>();
    check(v.len() == m.count(1 << K::IX, 0), 520);
    let mut i = 0;
    while i < v.len() {
        let k = m.find(v.entities()[i]);
        check(k < N, 521);
        let id = v.as_slice()[i].id();
        check(K::IX == Z::IX || !is_dropped(id), 522);
        check(id == m.s[k].id[K::IX], 523);
        i += 1;
    }
    let mut k = 0;
    while k < m.n {
        check(v.get(m.s[k].e).map_or(0, |x| x.id()) == m.s[k].id[K::IX], 524);
        k += 1;
    }
}
fn all_stored(w: &World, m: &M) {
    stored::<T>(w, m);
    stored::<X>(w, m);
    stored::<Z>(w, m);
    stored::<W>(w, m);
    check(w.entities().len() == m.count(0, 0), 525);
    let mut k = 0;
    while k < m.n {
        check(w.contains_entity(m.s[k].e) == m.s[k].live, 526);
        k += 1;
    }
}

fn populate(w: &mut World, m: &mut M) {
    let mut i = 0;
    while i < param(2, 2) {
        let set = choose_set(kinds(), true, 20);
        create(w, m, set);
        i += 1;
    }
}

fn op(w: &mut World, m: &mut M) {
    let c = choose(8 + 4 * m.n as u64, 21);
    match c {
        0 => {
            let set = choose_set(kinds(), true, 22);
            create(w, m, set);
        }
        1 => {
            w.clear();
            m.kill_all();
        }
        2 => {
            w.reset();
            m.kill_all();
            // handles start over
            m.n = 0;
            reach(2);
        }
        3 => {
            let l = choose(8, 27);
            w.set_layout(&lay(l));
            reach(3);
        }
        4 => {
            // written over through a view
            let mut v = w.borrow_mut::<X>();
            if let Some(x) = v.get_mut(if m.n > 0 { m.s[m.n - 1].e } else { crate::model::ent(0, 1) }) {
                let id = next();
                m.gone |= 1 << x.id();
                *x = X::mk(id);
                m.s[m.n - 1].id[1] = id;
                reach(4);
            }
        }
        5 => {
            let set = choose_set(kinds(), true, 28);
            let n = choose(3, 29) as usize;
            extend(w, m, set, n, 9);
        }
        6 => {
            // the same type twice: the first value is overwritten
            let (a, b) = (next(), next());
            let e = w.create((T::mk(a), T::mk(b)));
            let k = m.issue(e);
            m.s[k].id[0] = b;
            m.gone |= 1 << a;
        }
        7 => {
            // exchanged through a query
            let mut n = 0;
            let mut last = None;
            w.for_each::<(Entity, &mut T)>(|(e, t)| {
                let k = m.find(e);
                check(k < N, 527);
                let x = core::mem::replace(t, T::mk(next()));
                m.s[k].id[0] = t.id();
                m.gone |= 1 << x.id();
                last = Some(x);
                n += 1;
            });
            check(n == m.count(1, 0), 528);
        }
        _ => {
            let k = ((c - 8) >> 2) as usize;
            match (c - 8) & 3 {
                0 => {
                    let set = choose_set(kinds(), false, 23);
                    insert(w, m, k, set);
                }
                1 => {
                    let set = choose_set(kinds(), false, 24);
                    remove(w, m, k, set);
                }
                2 => {
                    let set = choose_set(kinds(), false, 25);
                    delete(w, m, k, set);
                }
                _ => destroy(w, m, k),
            }
        }
    }
}

fn notes(m: &M) {
    unsafe {
        note(DROPPED);
        note(ZLIVE as u64);
    }
    note(m.n as u64);
}

/// Every value is dropped exactly once, never early; all memory is released.
#[cfg(any(not(pick), h_c11_hist))]
#[no_mangle]
pub extern "C-unwind" fn h_c11_hist() {
    let base = live();
    {
        let mut w = world(choose_layout(1));
        let mut m = M::new();
        populate(&mut w, &mut m);
        m.verify(530);
        let mut i = 0;
        while i < param(1, 1) {
            op(&mut w, &mut m);
            m.verify(532);
            i += 1;
        }
        all_stored(&w, &m);
        notes(&m);
        drop(w);
        m.kill_all();
        m.verify(534);
    }
    check(live() == base, 536);
    unsafe {
        check(ZLIVE == 0, 537);
        check(DROPPED | 1 == (1u64 << NEXT) - 1, 538);
    }
    reach(1);
}

/// Growth through several reallocations, shrinking by any pattern, all of it released.
#[cfg(any(not(pick), h_c11_grow))]
#[no_mangle]
pub extern "C-unwind" fn h_c11_grow() {
    let base = live();
    {
        let mut w = world(choose_layout(1));
        let mut m = M::new();
        let n = choose(param(2, 11), 20);
        let mut i = 0;
        while i < n {
            create(&mut w, &mut m, 15);
            i += 1;
        }
        m.verify(540);
        // one handle out of three goes, starting anywhere
        let mut k = choose(3, 21) as usize;
        while k < m.n {
            match choose(3, 22) {
                0 => destroy(&mut w, &mut m, k),
                1 => remove(&mut w, &mut m, k, 7),
                _ => delete(&mut w, &mut m, k, 14),
            }
            m.verify(542);
            k += 3;
        }
        all_stored(&w, &m);
        notes(&m);
    }
    check(live() == base, 544);
    unsafe {
        check(ZLIVE == 0 && DROPPED | 1 == (1u64 << NEXT) - 1, 545);
    }
    reach(1);
}

// ---------------- panics ----------------

struct Unregistered(#[allow(unused)] u8);

/// Takes over what the world says about the (slot, kinds) pairs involved in a failed operation;
/// everything else must be as before.
fn adopt<K: Dk>(w: &World, m: &mut M, inv: &[u8; N]) {
    let v = w.borrow::<K>();
    let mut seen = 0u64;
    let mut listed = 0;
    let mut k = 0;
    while k < m.n {
        let id = v.get(m.s[k].e).map_or(0, |x| x.id());
        check(v.contains(m.s[k].e) == (id != 0), 550);
        if inv[k] >> K::IX & 1 == 0 {
            check(id == m.s[k].id[K::IX], 551);
        } else {
            m.s[k].id[K::IX] = id;
        }
        if id != 0 {
            check(m.s[k].live, 552);
            listed += 1;
            if K::IX != Z::IX {
                check(!is_dropped(id), 553);
                check(seen >> id & 1 == 0, 554);
                seen |= 1 << id;
            }
        }
        k += 1;
    }
    check(v.len() == listed, 555);
}
fn adopt_all(w: &World, m: &mut M, inv: &[u8; N], may_create: bool) {
    let mut inv = *inv;
    let mut i = 0;
    while i < w.entities().len() {
        let e = w.entities()[i];
        if m.find(e) == N {
            check(may_create, 556);
            let k = m.issue(e);
            inv[k] = 15;
        }
        i += 1;
    }
    let mut k = 0;
    while k < m.n {
        let l = w.contains_entity(m.s[k].e);
        check(inv[k] == 255 || l == m.s[k].live, 557);
        m.s[k].live = l;
        k += 1;
    }
    check(w.entities().len() == m.count(0, 0), 558);
    adopt::<T>(w, m, &inv);
    adopt::<X>(w, m, &inv);
    adopt::<Z>(w, m, &inv);
    adopt::<W>(w, m, &inv);
}

macro_rules! qd {
    ($w:expr, $m:expr; [$($G:ident $g:ident),*] [$($E:ident),*]) => {{
        let (w, m): (&World, &M) = ($w, $m);
        let need = 0u8 $(| 1 << $G::IX)*;
        let not = 0u8 $(| 1 << $E::IX)*;
        let mut seen = 0u32;
        let mut n = 0;
        let mut q = w.query_all::<(Entity, $(&$G,)*)>().exclude::<($(&$E,)*)>();
        q.for_each(|(e, $($g,)*)| {
            let k = m.find(e);
            check(k < N && seen >> k & 1 == 0, 560);
            seen |= 1 << k;
            check(m.has(k) & need == need && m.has(k) & not == 0, 561);
            $( check($g.id() == m.s[k].id[$G::IX], 562); )*
            n += 1;
        });
        check(n == m.count(need, not), 563);
        if let Some((es, $($g,)*)) = q.slice() {
            check(es.len() == n, 564);
            let mut i = 0;
            while i < n {
                let k = m.find(es[i]);
                check(k < N && m.has(k) & need == need && m.has(k) & not == 0, 565);
                $( check($g[i].id() == m.s[k].id[$G::IX], 566); )*
                i += 1;
            }
        }
    }};
}
fn queries(w: &World, m: &M) {
    qd!(w, m; [T t, X x] []);
    qd!(w, m; [X x, T t] [Z]);
    qd!(w, m; [X x, T t, Z z] []);
    qd!(w, m; [X x, Z z] [T]);
    qd!(w, m; [T t, Z z, X x] [W]);
    qd!(w, m; [W w, Z z] []);
    qd!(w, m; [X x, T t, W w, Z z] []);
}

/// A destructor panics in the middle of an operation.
#[cfg(any(not(pick), h_c20_drop))]
#[no_mangle]
pub extern "C-unwind" fn h_c20_drop() {
    let mut w = Some(world(choose_layout(1)));
    let mut m = M::new();
    {
        let w = w.as_mut().unwrap();
        populate(w, &mut m);
        let issued = unsafe { NEXT } - 1;
        assume(issued > 0);
        unsafe { BOMB = 2 << choose(issued, 70) };
    }
    let mut inv = [0u8; N];
    let n = m.n;
    let mut may_create = false;
    let c = choose(8, 71);
    let k = if c < 3 { choose(n as u64, 72) as usize } else { 0 };
    let set = if c < 2 { choose_set(kinds(), false, 73) } else { 0 };
    let p = {
        let w = &mut w;
        let m = &mut m;
        catch(|| match c {
            0 => insert(w.as_mut().unwrap(), m, k, set),
            1 => delete(w.as_mut().unwrap(), m, k, set),
            2 => destroy(w.as_mut().unwrap(), m, k),
            3 => {
                w.as_mut().unwrap().clear();
                m.kill_all();
            }
            4 => {
                w.as_mut().unwrap().reset();
                m.kill_all();
            }
            5 => {
                *w = None;
                m.kill_all();
            }
            6 => {
                // a component overwritten while extending
                unsafe { BOMB = 1 << NEXT };
                let a = [next(), next(), next(), next()];
                w.as_mut().unwrap().extend((0..2).map(|i| (T::mk(a[2 * i]), T::mk(a[2 * i + 1]), W::mk(next()))));
            }
            _ => {
                // replaced within a query
                w.as_ref().unwrap().for_each::<(Entity, &mut T)>(|(_, t)| *t = T::mk(next()));
            }
        })
    };
    unsafe { BOMB = 0 };
    if !p {
        // nothing panicked: no other expectation than C11's
        if c >= 6 {
            reach(4);
        }
        return;
    }
    reach(2);
    match c {
        0 | 1 => inv[k] = set,
        2 => inv[k] = 255,
        7 => inv = [1; N],
        6 => may_create = true,
        _ => inv = [255; N],
    }
    if c == 5 {
        // the world is gone: its values were dropped at most once
        reach(3);
        return;
    }
    let w = w.as_mut().unwrap();
    if c == 4 {
        m.kill_all();
        m.n = 0;
        inv = [0; N];
    }
    adopt_all(w, &mut m, &inv, may_create);
    if c == 2 {
        check(!m.s[k].live, 570);
    }
    if c == 3 || c == 4 {
        check(w.is_empty(), 571);
    }
    after(w, &mut m);
}

/// What must work after a caught panic: queries, operations, borrows, release.
fn after(w: &mut World, m: &mut M) {
    queries(w, m);
    // expectations about drops start over
    m.gone = unsafe { DROPPED };
    m.zlive = unsafe { ZLIVE };
    {
        let x = choose(4, 74);
        let k = choose(m.n as u64, 75) as usize;
        match x {
            0 => {
                create(w, m, 15);
            }
            1 if m.n > 0 => insert(w, m, k, 7),
            2 if m.n > 0 => remove(w, m, k, 3),
            3 if m.n > 0 => destroy(w, m, k),
            _ => {}
        }
    }
    m.verify(575);
    check(!catch(|| drop((w.borrow_mut::<T>(), w.borrow_mut::<X>(), w.borrow_mut::<Z>(), w.borrow_mut::<W>()))), 577);
    all_stored(w, m);
    queries(w, m);
    w.clear();
    m.kill_all();
    m.verify(578);
    all_stored(w, m);
    create(w, m, 7);
    all_stored(w, m);
    queries(w, m);
    notes(m);
    reach(1);
}

/// Iterators, closures and unregistered types that panic in the middle of an operation.
#[cfg(any(not(pick), h_c20_call))]
#[no_mangle]
pub extern "C-unwind" fn h_c20_call() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    populate(&mut w, &mut m);
    let mut inv = [0u8; N];
    let mut may_create = false;
    let c = choose(12, 71);
    let k = if m.n > 0 { choose(if c >= 4 && c < 10 { m.n as u64 } else { 1 }, 72) as usize } else { 0 };
    let e = m.s[k].e;
    let at = if c < 4 { choose(3, 76) as usize } else { 0 };
    let set = if c == 0 { choose_set(kinds(), true, 73) } else { 0 };
    let before = unsafe { (DROPPED, ZLIVE) };
    let p = {
        let w = &mut w;
        let mm = &mut m;
        catch(|| match c {
            // the iterator given to extend
            0 => extend(w, mm, set, 3, at),
            // closures given to queries
            1 => {
                let mut i = 0;
                w.for_each::<(&mut T, &X)>(|_| {
                    if i == at {
                        boom()
                    }
                    i += 1;
                })
            }
            2 => {
                let mut q = w.query_all::<(&T, Option<&mut W>)>().exclude::<&Z>();
                for (i, _) in q.iter().enumerate() {
                    if i == at {
                        boom()
                    }
                }
            }
            3 => {
                let mut i = 0;
                w.query_all::<(Entity, &mut X, &mut T)>().iter().for_each(|_| {
                    if i == at {
                        boom()
                    }
                    i += 1;
                })
            }
            4 => {
                w.query_one::<(&mut T, &X)>().map(e, |_| boom());
            }
            // types that are not registered
            5 => {
                w.insert(e, (T::mk(next()), Unregistered(1), X::mk(next())));
            }
            6 => {
                let _ = w.remove::<(T, X, Unregistered)>(e);
            }
            7 => w.delete::<(Z, Unregistered, T)>(e),
            8 => {
                w.query_one::<(&mut T, &mut X, &Unregistered)>().contains(e);
            }
            9 => {
                w.query_all::<(&mut W, &T)>().include::<&X>().exclude::<&Unregistered>().slice();
            }
            10 => {
                w.create((T::mk(next()), W::mk(next()), Unregistered(2)));
            }
            _ => {
                w.extend((0..2).map(|_| (X::mk(next()), Unregistered(3))));
            }
        })
    };
    if !p {
        reach(3);
        return;
    }
    reach(2);
    match c {
        0 | 10 | 11 => may_create = true,
        5 => inv[k] = 3,
        6 => inv[k] = 3,
        7 => inv[k] = 5,
        _ => unsafe { check(before.0 == DROPPED && before.1 == ZLIVE, 580) },
    }
    adopt_all(&w, &mut m, &inv, may_create);
    after(&mut w, &mut m);
}
