//! C04: components are a per-entity map keyed by live handles.
use crate::model::*;
use crate::rt::*;

fn notes(w: &sparsey::World, m: &M) {
    note_state(m);
    let v = w.borrow::<A>();
    for (i, &e) in v.entities().iter().enumerate() {
        note(bits(e));
        note(v.as_slice()[i].v());
    }
}

/// Population and operations, then everything the views say.
#[cfg(any(not(pick), h_c04_hist))]
#[no_mangle]
pub extern "C-unwind" fn h_c04_hist() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    populate(&mut w, &mut m);
    comp_ops(&mut w, &mut m);
    check_live(&w, &m);
    check_kinds(&w, &m);
    notes(&w, &m);
    reach(1);
}

/// The same with an arbitrary handle: nothing but a live handle has or gets components.
#[cfg(any(not(pick), h_c04_any))]
#[no_mangle]
pub extern "C-unwind" fn h_c04_any() {
    let mut w = world(choose_layout(1));
    let mut m = M::new();
    populate(&mut w, &mut m);
    comp_ops(&mut w, &mut m);
    let e = any_entity(200);
    // what a correct world says about it
    let mut has = 0u8;
    let mut live = false;
    let mut va = 0u64;
    let mut k = 0;
    while k < m.n {
        let hit = (bits(e) == bits(m.s[k].e)) & m.s[k].live;
        live |= hit;
        has |= m.s[k].has & 0u8.wrapping_sub(hit as u8);
        va |= m.s[k].val[0] & 0u64.wrapping_sub(hit as u64);
        k += 1;
    }
    {
        let v = w.borrow::<A>();
        let c = v.contains(e);
        check(c == (has & 1 == 1), 60);
        let g = v.get(e);
        check(g.is_some() == (has & 1 == 1), 61);
        if let Some(x) = g {
            check(x.v() == va, 62);
            reach(2);
        }
        let mut v = w.borrow_mut::<B>();
        check(v.get_mut(e).is_some() == (has >> 1 & 1 == 1), 63);
        check(v.get(e).is_some() == (has >> 1 & 1 == 1), 64);
        check(v.contains(e) == (has >> 1 & 1 == 1), 65);
    }
    match choose(4, 26) {
        0 => {
            let ok = w.insert(e, (A(7), C(9)));
            check(ok == live, 66);
            if ok {
                reach(3);
                let mut k = 0;
                while k < m.n {
                    if m.s[k].live && bits(e) == bits(m.s[k].e) {
                        m.put::<A>(k, 7);
                        m.put::<C>(k, 9);
                    }
                    k += 1;
                }
            }
        }
        1 => {
            let (a, b) = w.remove::<(A, B)>(e);
            check(a.is_some() == (has & 1 == 1), 67);
            check(b.is_some() == (has >> 1 & 1 == 1), 68);
            if let Some(a) = a {
                check(a.v() == va, 69);
            }
            let mut k = 0;
            while k < m.n {
                if m.s[k].live && bits(e) == bits(m.s[k].e) {
                    m.s[k].has &= !3;
                }
                k += 1;
            }
        }
        2 => {
            w.delete::<(C, A)>(e);
            let mut k = 0;
            while k < m.n {
                if m.s[k].live && bits(e) == bits(m.s[k].e) {
                    m.s[k].has &= !5;
                }
                k += 1;
            }
        }
        _ => {
            let ok = w.destroy(e);
            check(ok == live, 70);
            let mut k = 0;
            while k < m.n {
                if m.s[k].live && bits(e) == bits(m.s[k].e) {
                    m.kill(k);
                }
                k += 1;
            }
        }
    }
    check_live(&w, &m);
    check_kinds(&w, &m);
    notes(&w, &m);
    reach(1);
}
