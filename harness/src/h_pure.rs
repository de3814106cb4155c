//! C16, C17: handles and the public sparse vector.
use crate::model::*;
use crate::rt::*;
use core::cmp::Ordering;
use core::num::NonZeroU32;
use sparsey::entity::{SparseVec, SparseVecSlot, Version};
use sparsey::Entity;

fn ord(o: Ordering) -> i32 {
    o as i32
}

/// Everything a value feeds a hasher: up to 16 bytes, and how many.
#[derive(Default)]
struct Fed {
    v: [u64; 2],
    n: u32,
}
impl core::hash::Hasher for Fed {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            if self.n < 16 {
                self.v[self.n as usize / 8] |= (*b as u64) << (self.n % 8 * 8);
            }
            self.n += 1;
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn fed<T: core::hash::Hash>(t: &T) -> (u64, u64, u32) {
    let mut h = Fed::default();
    t.hash(&mut h);
    (h.v[0], h.v[1], h.n)
}

/// Entity: equality, order, parts. Three fully symbolic handles.
#[cfg(any(not(pick), h_c16_entity))]
#[no_mangle]
pub extern "C-unwind" fn h_c16_entity() {
    let a = any_entity(200);
    let b = any_entity(202);
    let c = any_entity(204);
    let (ai, av) = (a.index, a.version.0.get());
    let (bi, bv) = (b.index, b.version.0.get());
    check((a == b) == ((ai == bi) & (av == bv)), 400);
    check((a != b) == ((ai != bi) | (av != bv)), 401);
    let key = |e: &Entity| ((e.version.0.get() as u64) << 32) | e.index as u64;
    let (ka, kb, kc) = (key(&a), key(&b), key(&c));
    check((a < b) == (ka < kb), 402);
    check((a <= b) == (ka <= kb), 403);
    check((a > b) == (ka > kb), 404);
    check((a >= b) == (ka >= kb), 405);
    check(ord(a.cmp(&b)) == ord(ka.cmp(&kb)), 406);
    check(a.partial_cmp(&b).map(ord) == Some(ord(a.cmp(&b))), 407);
    check((a.cmp(&b) == Ordering::Equal) == (a == b), 408);
    check(ord(a.cmp(&b)) == -ord(b.cmp(&a)), 409);
    check(!((a <= b) & (b <= c)) | (a <= c), 410);
    check(
        key(&a.max(b)) == ka.max(kb) && key(&a.min(b)) == ka.min(kb),
        411,
    );
    let _ = kc;
    let r = Entity::new(a.index, a.version);
    check(r == a && r.cmp(&a) == Ordering::Equal, 412);
    check(a.sparse() == ai as usize, 413);
    let w = Entity::with_index(ai);
    check(
        w.index == ai && w.version == Version::FIRST && w.version.0.get() == 1,
        414,
    );
    check(!(a.version == Version::FIRST) | (w == a), 415);
    // equal handles (and versions) feed a hasher the same bytes
    let (ha, hb, hr) = (fed(&a), fed(&b), fed(&r));
    check(!(a == b) | (ha == hb), 416);
    check(hr == ha, 417);
    let (va, vb) = (fed(&a.version), fed(&b.version));
    check(!(a.version == b.version) | (va == vb), 418);
    note(ka);
    reach(1);
}

/// Version: order and successor.
#[cfg(any(not(pick), h_c16_version))]
#[no_mangle]
pub extern "C-unwind" fn h_c16_version() {
    let x = sym(32, 210) as u32;
    let y = sym(32, 211) as u32;
    assume(x != 0 && y != 0);
    let a = Version(NonZeroU32::new(x).unwrap());
    let b = Version(NonZeroU32::new(y).unwrap());
    check((a == b) == (x == y), 420);
    check((a < b) == (x < y), 421);
    check(ord(a.cmp(&b)) == ord(x.cmp(&y)), 422);
    check(a.partial_cmp(&b) == Some(a.cmp(&b)), 423);
    check(
        Version::FIRST.0.get() == 1 && Version::LAST.0.get() == u32::MAX,
        424,
    );
    check(Version::default() == Version::FIRST, 425);
    check(Version::FIRST <= a && a <= Version::LAST, 426);
    match a.next() {
        Some(n) => {
            check(x != u32::MAX, 427);
            check(n.0.get() == x.wrapping_add(1), 428);
            check(n > a, 429);
            check(!(b > a) | (b >= n), 430);
            reach(1);
        }
        None => {
            check(x == u32::MAX && a == Version::LAST, 431);
            reach(2);
        }
    }
    note(x as u64);
}

const W: usize = 12;
/// Indexes in use: around the sizes at which the vector grows.
const IXS: [usize; 8] = [0, 3, 4, 8, 1, 7, 2, 11];
/// Map from index to (version, dense).
#[derive(Clone, Copy)]
struct Map {
    v: [Option<(u32, u32)>; W],
}

fn slot(d: u32, v: u32) -> Option<SparseVecSlot> {
    Some(SparseVecSlot {
        index: d,
        version: Version(NonZeroU32::new(v).unwrap()),
    })
}
fn get(m: &Map, e: Entity) -> Option<u32> {
    if e.sparse() >= W {
        return None;
    }
    m.v[e.sparse()].and_then(|(v, d)| (v == e.version.0.get()).then_some(d))
}

/// Histories on SparseVec; dense values and versions are symbolic, indexes below 12.
#[cfg(any(not(pick), h_c17_hist))]
#[no_mangle]
pub extern "C-unwind" fn h_c17_hist() {
    let mut s = SparseVec::new();
    let mut m = Map { v: [None; W] };
    let top = param(2, 4);
    let mut i = 0;
    while i < param(1, 3) {
        let op = choose(5, 60);
        let ix = IXS[choose(top, 61) as usize];
        match op {
            0 => {
                // write through the slot accessor
                let d = sym(32, 62) as u32;
                let v = sym(32, 63) as u32;
                assume(v != 0);
                let sl = s.get_mut_or_allocate_at(ix);
                check(sl.is_some() == m.v[ix].is_some(), 440);
                if let (Some(sl), Some((v0, d0))) = (&*sl, m.v[ix]) {
                    check(
                        sl.index == d0 && sl.version.0.get() == v0 && sl.dense() == d0 as usize,
                        441,
                    );
                }
                *sl = slot(d, v);
                m.v[ix] = Some((v, d));
                reach(2);
            }
            1 => {
                // remove by handle with an arbitrary version
                let v = sym(32, 64) as u32;
                assume(v != 0);
                let e = ent(ix as u32, v);
                let want = get(&m, e);
                let got = s.remove(e);
                check(got == want, 442);
                if got.is_some() {
                    m.v[ix] = None;
                    reach(3);
                }
            }
            2 => {
                let got = s.remove_sparse(ix);
                check(got.is_some() == m.v[ix].is_some(), 443);
                if let (Some(sl), Some((v0, d0))) = (got, m.v[ix]) {
                    check(sl.index == d0 && sl.version.0.get() == v0, 444);
                }
                m.v[ix] = None;
            }
            3 => {
                let b = IXS[choose(top, 65) as usize];
                assume(b != ix);
                s.get_mut_or_allocate_at(ix);
                s.get_mut_or_allocate_at(b);
                unsafe { s.swap_nonoverlapping(ix, b) };
                m.v.swap(ix, b);
                reach(4);
            }
            _ => {
                assume(ix == 0);
                s.clear();
                m.v = [None; W];
            }
        }
        i += 1;
    }
    lookup(&mut s, &m);
    reach(1);
}

/// Every lookup agrees with the map, for any handle and any raw index.
fn lookup(s: &mut SparseVec, m: &Map) {
    match choose(4, 224) {
        0 => {
            let mut k = 0;
            while k < W {
                check(s.contains_sparse(k) == m.v[k].is_some(), 450);
                check(s.get_sparse(k) == m.v[k].map(|x| x.1), 451);
                if let Some((v, d)) = m.v[k] {
                    check(unsafe { s.get_sparse_unchecked(k) } == d as usize, 452);
                    check(s.get(ent(k as u32, v)) == Some(d), 453);
                    check(s.contains(ent(k as u32, v)), 454);
                    let sl = unsafe { *s.get_unchecked_mut(k) };
                    check(
                        sl.map_or(false, |x| x.index == d && x.version.0.get() == v),
                        455,
                    );
                    note(d as u64);
                }
                k += 1;
            }
            let c = s.clone();
            let mut k = 0;
            while k < W {
                check(c.get_sparse(k) == s.get_sparse(k), 464);
                k += 1;
            }
        }
        1 => {
            // any handle
            let e = any_entity(220);
            let mut has = false;
            let mut d = 0;
            let mut k = 0;
            while k < W {
                if let Some((v, dd)) = m.v[k] {
                    let hit = (e.index == k as u32) & (e.version.0.get() == v);
                    has |= hit;
                    d |= dd & 0u32.wrapping_sub(hit as u32);
                }
                k += 1;
            }
            check(s.contains(e) == has, 456);
            match s.get(e) {
                Some(x) => check(has & (x == d), 457),
                None => check(!has, 458),
            }
        }
        2 => {
            // any raw index
            let r = sym(64, 222) as usize;
            let mut has = false;
            let mut d = 0;
            let mut k = 0;
            while k < W {
                if let Some((_, dd)) = m.v[k] {
                    has |= r == k;
                    d |= dd & 0u32.wrapping_sub((r == k) as u32);
                }
                k += 1;
            }
            check(s.contains_sparse(r) == has, 459);
            match s.get_sparse(r) {
                Some(x) => check(has & (x == d), 460),
                None => check(!has, 461),
            }
        }
        _ => {
            let e = any_entity(220);
            let got = s.remove(e);
            check(got == s_get(m, e), 462);
            check(!s.contains(e), 463);
        }
    }
}
fn s_get(m: &Map, e: Entity) -> Option<u32> {
    let mut r = None;
    let mut k = 0;
    while k < W {
        if let Some((v, d)) = m.v[k] {
            if e.index == k as u32 && e.version.0.get() == v {
                r = Some(d);
            }
        }
        k += 1;
    }
    r
}

/// Growth: any single index up to the bound, before and after another one.
#[cfg(any(not(pick), h_c17_grow))]
#[no_mangle]
pub extern "C-unwind" fn h_c17_grow() {
    let top = param(2, 140);
    let mut s = SparseVec::new();
    let i = choose(top, 66) as usize;
    let j = if param(3, 0) == 0 {
        [
            0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129,
        ][choose(20, 67) as usize]
    } else {
        choose(top, 67) as usize
    };
    let (d, v) = (sym(32, 68) as u32, sym(32, 69) as u32);
    assume(v != 0);
    let x = s.get_mut_or_allocate_at(i);
    check(x.is_none(), 470);
    *x = slot(d, v);
    let y = s.get_mut_or_allocate_at(j);
    check(y.is_some() == (i == j), 471);
    check(s.get(ent(i as u32, v)) == Some(d), 472);
    let (d2, v2) = (sym(32, 68) as u32, sym(32, 69) as u32);
    assume(v2 != 0);
    *s.get_mut_or_allocate_at(j) = slot(d2, v2);
    if i != j {
        check(s.get(ent(i as u32, v)) == Some(d), 473);
        check(s.get_sparse(i) == Some(d), 474);
    }
    check(s.get(ent(j as u32, v2)) == Some(d2), 475);
    if flip(223) {
        let r = sym(64, 222) as usize;
        check(s.contains_sparse(r) == ((r == i) | (r == j)), 476);
        reach(2);
    } else {
        let e = any_entity(220);
        let hit = ((e.index as usize == i) & (e.version.0.get() == v) & (i != j))
            | ((e.index as usize == j) & (e.version.0.get() == v2));
        check(s.contains(e) == hit, 477);
        reach(3);
    }
    note(s.get_sparse(i).unwrap() as u64);
    note(s.get_sparse(j).unwrap() as u64);
    reach(1);
}
