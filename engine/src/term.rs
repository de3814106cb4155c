//! Hash-consed bit-vector terms (width 1..=128) with constant folding and
//! light rewriting. One arena per process.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u16,
    pub undef: bool,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    vs: Vec<u32>,
    pub vsets: Vec<Vec<u32>>,
    vset_map: HashMap<Vec<u32>, u32>,
    pub vars: Vec<VarInfo>,
    var_term: Vec<T>,
    input_vars: HashMap<(u32, u16), u32>,
    undef_vars: HashMap<(u32, u16), u32>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    gen: u32,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold2(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            (sext(x, w) >> s) as u128
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m,
    }
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![],
            map: HashMap::new(),
            vs: vec![],
            vsets: vec![vec![]],
            vset_map: HashMap::new(),
            vars: vec![],
            var_term: vec![],
            input_vars: HashMap::new(),
            undef_vars: HashMap::new(),
            stamp: vec![],
            val: vec![],
            gen: 0,
        };
        t.vset_map.insert(vec![], 0);
        t.con(0, 1);
        t.con(1, 1);
        t
    }

    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_set(vec![n.k as u32]),
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.vs[n.a as usize],
            Op::Ite => {
                let x = self.union(self.vs[n.a as usize], self.vs[n.b as usize]);
                self.union(x, self.vs[n.c as usize])
            }
            _ => self.union(self.vs[n.a as usize], self.vs[n.b as usize]),
        };
        self.nodes.push(n);
        self.vs.push(vs);
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert(n, t);
        t
    }

    fn intern_set(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.vset_map.get(&v) {
            return i;
        }
        let i = self.vsets.len() as u32;
        self.vsets.push(v.clone());
        self.vset_map.insert(v, i);
        i
    }

    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let mut v = self.vsets[a as usize].clone();
        v.extend_from_slice(&self.vsets[b as usize]);
        v.sort_unstable();
        v.dedup();
        self.intern_set(v)
    }

    pub fn varset(&self, t: T) -> &[u32] {
        &self.vsets[self.vs[t as usize] as usize]
    }

    pub fn has_undef(&self, t: T) -> bool {
        self.varset(t).iter().any(|&v| self.vars[v as usize].undef)
    }

    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }

    pub fn con(&mut self, v: u128, w: u16) -> T {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }

    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    fn new_var(&mut self, w: u16, undef: bool) -> u32 {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w, undef });
        let t = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 });
        self.var_term.push(t);
        id
    }

    pub fn var_term(&self, id: u32) -> T {
        self.var_term[id as usize]
    }

    /// The k-th input of a path, with the given width (shared between paths).
    pub fn input(&mut self, k: u32, w: u16) -> (u32, T) {
        let id = match self.input_vars.get(&(k, w)) {
            Some(&i) => i,
            None => {
                let i = self.new_var(w, false);
                self.input_vars.insert((k, w), i);
                i
            }
        };
        (id, self.var_term[id as usize])
    }

    pub fn undef(&mut self, k: u32, w: u16) -> T {
        let id = match self.undef_vars.get(&(k, w)) {
            Some(&i) => i,
            None => {
                let i = self.new_var(w, true);
                self.undef_vars.insert((k, w), i);
                i
            }
        };
        self.var_term[id as usize]
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold2(op, w, x, y);
            return self.con(r, rw);
        }
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        // commutative: constant to the right, otherwise order by id
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq)
            && (ca.is_some() || (cb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        let na = self.nodes[a as usize];
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return b,
                    Some(k) if k == m => return a,
                    Some(k) => {
                        // low mask = truncate + zext
                        if (k & (k + 1)) == 0 {
                            let n = k.count_ones() as u16;
                            let x = self.extract(a, 0, n);
                            return self.zext(x, w);
                        }
                    }
                    None => {
                        if w == 1 && self.is_not_of(a, b) {
                            return self.con(0, 1);
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return a,
                    Some(k) if k == m => return b,
                    _ => {}
                }
                if w == 1 && cb.is_none() && self.is_not_of(a, b) {
                    return self.con(1, 1);
                }
                if let Some(t) = self.or_concat(a, b) {
                    return t;
                }
                if let Some(t) = self.or_concat(b, a) {
                    return t;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.con(0, w);
                }
                match cb {
                    Some(0) => return a,
                    Some(k) if k == m => return self.not(a),
                    _ => {}
                }
            }
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let s = self.con(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.con(0, w);
                }
                if let Some(k) = cb {
                    let nk = self.con(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, nk);
                }
            }
            Op::Mul => match cb {
                Some(0) => return b,
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => {
                    let s = self.con(k.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                }
                _ => {}
            },
            Op::UDiv => match cb {
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => {
                    let s = self.con(k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                _ => {}
            },
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.con(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl => match cb {
                Some(0) => return a,
                Some(k) if k >= w as u128 => return self.con(0, w),
                Some(k) => {
                    let hi = self.extract(a, 0, w - k as u16);
                    let z = self.con(0, k as u16);
                    return self.concat(hi, z);
                }
                None => {}
            },
            Op::LShr => match cb {
                Some(0) => return a,
                Some(k) if k >= w as u128 => return self.con(0, w),
                Some(k) => {
                    let x = self.extract(a, k as u16, w - k as u16);
                    return self.zext(x, w);
                }
                None => {}
            },
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.con(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k & !mask(iw) != 0 {
                                return self.con(0, 1);
                            }
                            let kk = self.con(k, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let (kh, kl) = (k >> lw, k & mask(lw));
                            let hw = self.w(na.a);
                            let kh = self.con(kh, hw);
                            let kl = self.con(kl, lw);
                            let h = self.bin(Op::Eq, na.a, kh);
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.con(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.con(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.nodes[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.con(0, 1);
                }
                if cb == Some(1) {
                    let z = self.con(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(k) = cb {
                        if k > mask(iw) {
                            return self.con(1, 1);
                        }
                        let kk = self.con(k, iw);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
                let nb = self.nodes[b as usize];
                if nb.op == Op::ZExt {
                    let iw = self.w(nb.a);
                    if let Some(k) = ca {
                        if k >= mask(iw) {
                            return self.con(0, 1);
                        }
                        let kk = self.con(k, iw);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.con(1, 1);
                }
                // a <= b  <=>  !(b < a)
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b {
                    return self.con(0, 1);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.con(1, 1);
                }
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }

    fn is_not_of(&self, a: T, b: T) -> bool {
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }

    /// (hi ++ 0_k) | zext(lo)  ==>  hi ++ zext(lo, k)
    fn or_concat(&mut self, a: T, b: T) -> Option<T> {
        let na = self.nodes[a as usize];
        if na.op != Op::Concat || self.as_const(na.b) != Some(0) {
            return None;
        }
        let k = self.w(na.b);
        let nb = self.nodes[b as usize];
        match nb.op {
            Op::ZExt if self.w(nb.a) <= k => {
                let lo = self.zext(nb.a, k);
                Some(self.concat(na.a, lo))
            }
            Op::Const if nb.k & !mask(k) == 0 => {
                let lo = self.con(nb.k, k);
                Some(self.concat(na.a, lo))
            }
            _ => None,
        }
    }

    pub fn not(&mut self, a: T) -> T {
        let n = self.nodes[a as usize];
        if n.op == Op::Const {
            return self.con(!n.k, n.w);
        }
        if n.op == Op::Not {
            return n.a;
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn zext(&mut self, a: T, w: u16) -> T {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.con(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn sext(&mut self, a: T, w: u16) -> T {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.con(sext(n.k, n.w) as u128, w),
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn extract(&mut self, a: T, lo: u16, n: u16) -> T {
        let na = self.nodes[a as usize];
        if lo == 0 && n == na.w {
            return a;
        }
        match na.op {
            Op::Const => self.con(na.k >> lo, n),
            Op::Extract => self.extract(na.a, lo + na.k as u16, n),
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw {
                    self.con(0, n)
                } else if lo + n <= iw {
                    self.extract(na.a, lo, n)
                } else {
                    let x = self.extract(na.a, lo, iw - lo);
                    self.zext(x, n)
                }
            }
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + n <= lw {
                    self.extract(na.b, lo, n)
                } else if lo >= lw {
                    self.extract(na.a, lo - lw, n)
                } else {
                    let l = self.extract(na.b, lo, lw - lo);
                    let h = self.extract(na.a, 0, n - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::Ite => {
                let (x, y) = (self.nodes[na.b as usize].op, self.nodes[na.c as usize].op);
                if x == Op::Const || y == Op::Const || x == Op::Concat || y == Op::Concat {
                    let p = self.extract(na.b, lo, n);
                    let q = self.extract(na.c, lo, n);
                    self.ite(na.a, p, q)
                } else {
                    self.mk(Node { op: Op::Extract, w: n, a, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let p = self.extract(na.a, lo, n);
                let q = self.extract(na.b, lo, n);
                self.bin(na.op, p, q)
            }
            Op::Not => {
                let p = self.extract(na.a, lo, n);
                self.not(p)
            }
            _ => self.mk(Node { op: Op::Extract, w: n, a, b: 0, c: 0, k: lo as u128 }),
        }
    }

    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.con((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        if nh.op == Op::Extract && nl.op != Op::Concat && nh.a == lo && nh.k == nl.w as u128 {
            // impossible widths, fallthrough
        }
        // (x ++ e1) ++ e2 with adjacent extracts
        if nh.op == Op::Concat {
            let nb = self.nodes[nh.b as usize];
            if nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.k == nl.k + nl.w as u128 {
                let m = self.extract(nl.a, nl.k as u16, nb.w + nl.w);
                return self.concat(nh.a, m);
            }
            if nb.op == Op::Const && nl.op == Op::Const {
                let m = self.con((nb.k << nl.w) | nl.k, nb.w + nl.w);
                return self.concat(nh.a, m);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }

    /// Evaluate under an assignment (missing variables are 0).
    pub fn eval(&mut self, t: T, model: &HashMap<u32, u128>) -> u128 {
        self.gen += 1;
        let g = self.gen;
        self.eval_rec(t, model, g)
    }

    fn eval_rec(&mut self, t: T, m: &HashMap<u32, u128>, g: u32) -> u128 {
        if self.stamp[t as usize] == g {
            return self.val[t as usize];
        }
        let n = self.nodes[t as usize];
        let r = match n.op {
            Op::Const => return n.k,
            Op::Var => m.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w),
            Op::Not => !self.eval_rec(n.a, m, g) & mask(n.w),
            Op::Ite => {
                if self.eval_rec(n.a, m, g) == 1 {
                    self.eval_rec(n.b, m, g)
                } else {
                    self.eval_rec(n.c, m, g)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_rec(n.a, m, g) << lw) | self.eval_rec(n.b, m, g)
            }
            Op::Extract => (self.eval_rec(n.a, m, g) >> n.k) & mask(n.w),
            Op::ZExt => self.eval_rec(n.a, m, g),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.eval_rec(n.a, m, g), iw) as u128 & mask(n.w)
            }
            op => {
                let w = self.w(n.a);
                let x = self.eval_rec(n.a, m, g);
                let y = self.eval_rec(n.b, m, g);
                fold2(op, w, x, y)
            }
        };
        self.stamp[t as usize] = g;
        self.val[t as usize] = r;
        r
    }

    /// Rename variables: `f(var) -> Some(term)`.
    pub fn subst(&mut self, t: T, map: &HashMap<u32, T>, memo: &mut HashMap<T, T>) -> T {
        if !self.varset(t).iter().any(|v| map.contains_key(v)) {
            return t;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let n = self.nodes[t as usize];
        let r = match n.op {
            Op::Const => t,
            Op::Var => map.get(&(n.k as u32)).copied().unwrap_or(t),
            Op::Not => {
                let a = self.subst(n.a, map, memo);
                self.not(a)
            }
            Op::Extract => {
                let a = self.subst(n.a, map, memo);
                self.extract(a, n.k as u16, n.w)
            }
            Op::ZExt => {
                let a = self.subst(n.a, map, memo);
                self.zext(a, n.w)
            }
            Op::SExt => {
                let a = self.subst(n.a, map, memo);
                self.sext(a, n.w)
            }
            Op::Ite => {
                let a = self.subst(n.a, map, memo);
                let b = self.subst(n.b, map, memo);
                let c = self.subst(n.c, map, memo);
                self.ite(a, b, c)
            }
            Op::Concat => {
                let a = self.subst(n.a, map, memo);
                let b = self.subst(n.b, map, memo);
                self.concat(a, b)
            }
            op => {
                let a = self.subst(n.a, map, memo);
                let b = self.subst(n.b, map, memo);
                self.bin(op, a, b)
            }
        };
        memo.insert(t, r);
        r
    }
}
