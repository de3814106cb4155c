//! C21: views agree with the stored components.
use crate::model::*;
use crate::rt::*;
use sparsey::{Entity, World};

/// Everything a view can be asked, for every issued handle and the arbitrary handle `$e`.
macro_rules! look {
    ($v:expr, $m:expr, $K:ident, $e:expr) => {{
        let (v, m, e) = (&$v, &*$m, $e);
        let bit = 1u8 << <$K as Kind>::IX;
        let n = m.count(bit, 0);
        check(v.len() == n, 620);
        check(v.is_empty() == (n == 0), 621);
        check(v.entities().len() == n, 622);
        check(v.as_slice().len() == n, 623);
        let mut seen = 0u32;
        let mut i = 0;
        while i < n {
            let k = m.find(v.entities()[i]);
            check(k < N && m.matches(k, bit, 0), 624);
            check(seen >> k & 1 == 0, 625);
            seen |= 1 << k;
            check(v.as_slice()[i].v() == m.s[k].val[<$K as Kind>::IX], 626);
            i += 1;
        }
        let (mut any, mut val) = (false, 0u64);
        let mut k = 0;
        while k < m.n {
            let has = m.s[k].has & bit != 0;
            check(v.contains(m.s[k].e) == has, 627);
            match v.get(m.s[k].e) {
                Some(x) => check(has && x.v() == m.s[k].val[<$K as Kind>::IX], 628),
                None => check(!has, 629),
            }
            if has {
                check(v[m.s[k].e].v() == m.s[k].val[<$K as Kind>::IX], 630);
            }
            let hit = (bits(e) == bits(m.s[k].e)) & has;
            any |= hit;
            val |= m.s[k].val[<$K as Kind>::IX] & 0u64.wrapping_sub(hit as u64);
            k += 1;
        }
        check(v.contains(e) == any, 631);
        match v.get(e) {
            Some(x) => {
                check(any, 632);
                check(x.v() == val, 633);
                reach(2);
            }
            None => check(!any, 634),
        }
    }};
}

fn set(m: &mut M, e: Entity, ix: usize, v: u64) {
    let mut k = 0;
    while k < m.n {
        if bits(m.s[k].e) == bits(e) {
            m.s[k].val[ix] = v;
        }
        k += 1;
    }
}

fn shared<K: Kind>(w: &World, m: &M, e: Entity) {
    let v = w.borrow::<K>();
    look!(v, m, K, e);
    let (v, _) = w.borrow_with_group_info::<K>();
    look!(v, m, K, e);
    // indexing panics for a handle without the component
    let mut k = 0;
    while k < m.n {
        if m.s[k].has >> K::IX & 1 == 0 {
            check(catch(|| drop(v[m.s[k].e].v())), 635);
            reach(3);
        }
        k += 1;
    }
}

fn exclusive<K: Kind>(w: &World, m: &mut M, e: Entity) {
    {
        let mut v = w.borrow_mut::<K>();
        look!(v, m, K, e);
        match choose(4, 28) {
            0 => {
                // through the slice
                let n = v.len();
                let mut i = 0;
                while i < n {
                    let nv = val::<K>(130);
                    let e = v.entities()[i];
                    v.as_mut_slice()[i] = K::mk(nv);
                    set(m, e, K::IX, nv);
                    i += 1;
                }
                check(v.as_mut_slice().len() == n, 636);
            }
            1 => {
                // through references, one entity at a time
                let mut k = 0;
                while k < m.n {
                    let has = m.s[k].has >> K::IX & 1 == 1;
                    match v.get_mut(m.s[k].e) {
                        Some(x) => {
                            check(has && x.v() == m.s[k].val[K::IX], 637);
                            let nv = val::<K>(131);
                            *x = K::mk(nv);
                            m.s[k].val[K::IX] = nv;
                        }
                        None => check(!has, 638),
                    }
                    k += 1;
                }
            }
            2 => {
                // by index, or a panic
                let mut k = 0;
                while k < m.n {
                    if m.s[k].has >> K::IX & 1 == 1 {
                        let nv = val::<K>(132);
                        v[m.s[k].e] = K::mk(nv);
                        m.s[k].val[K::IX] = nv;
                    } else {
                        let e = m.s[k].e;
                        check(catch(|| v[e] = K::mk(0)), 639);
                    }
                    k += 1;
                }
            }
            _ => {
                // an arbitrary handle
                let nv = val::<K>(133);
                if let Some(x) = v.get_mut(e) {
                    *x = K::mk(nv);
                    let mut k = 0;
                    while k < m.n {
                        if m.s[k].has >> K::IX & 1 == 1 {
                            let hit = 0u64.wrapping_sub((bits(e) == bits(m.s[k].e)) as u64);
                            m.s[k].val[K::IX] = (m.s[k].val[K::IX] & !hit) | (nv & hit);
                        }
                        k += 1;
                    }
                    reach(4);
                }
            }
        }
        look!(v, m, K, e);
    }
    let (mut v, _) = w.borrow_with_group_info_mut::<K>();
    look!(v, m, K, e);
    if let Some(x) = v.as_mut_slice().last_mut() {
        let nv = val::<K>(134);
        *x = K::mk(nv);
        let e = v.entities()[v.len() - 1];
        set(m, e, K::IX, nv);
    }
}

#[cfg(any(not(pick), h_c21_view))]
#[no_mangle]
pub extern "C-unwind" fn h_c21_view() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    populate(&mut w, &mut m);
    comp_ops(&mut w, &mut m);
    let e = any_entity(200);
    match choose(kinds().count_ones() as u64, 27) {
        0 => {
            shared::<A>(&w, &m, e);
            exclusive::<A>(&w, &mut m, e);
        }
        1 => {
            shared::<B>(&w, &m, e);
            exclusive::<B>(&w, &mut m, e);
        }
        2 => {
            shared::<C>(&w, &m, e);
            exclusive::<C>(&w, &mut m, e);
        }
        _ => {
            shared::<D>(&w, &m, e);
            exclusive::<D>(&w, &mut m, e);
        }
    }
    // what was written shows everywhere, and nothing else changed
    check_live(&w, &m);
    check_kinds(&w, &m);
    let mut q = w.query_one::<(Option<&A>, Option<&B>, Option<&C>, Option<&D>)>();
    let mut k = 0;
    while k < m.n {
        if m.s[k].live {
            let s = &m.s[k];
            match q.get(s.e) {
                Some((a, b, c, d)) => {
                    check(a.map(Kind::v) == (s.has & 1 != 0).then_some(s.val[0]), 640);
                    check(b.map(Kind::v) == (s.has & 2 != 0).then_some(s.val[1]), 641);
                    check(c.map(Kind::v) == (s.has & 4 != 0).then_some(s.val[2]), 642);
                    check(d.map(Kind::v) == (s.has & 8 != 0).then_some(s.val[3]), 643);
                }
                None => check(false, 644),
            }
        }
        k += 1;
    }
    note_state(&m);
    reach(1);
}
