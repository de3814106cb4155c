//! The symbolic executor.
use crate::ir::*;
use crate::prog::*;
use crate::smt::{Ans, Smt};
use crate::term::{fold2, mask, Op, Terms, T};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type Model = HashMap<u32, u128>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub prev: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    pub inv: Option<(u32, u32)>,
    pub is_try: bool,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub joining: bool,
}

#[derive(Clone)]
pub struct Input {
    pub var: u32,
    pub bits: u16,
    pub tag: u32,
    pub val: Option<u128>,
}

#[derive(Clone)]
pub struct State {
    pub mem: Vec<(u64, Rc<Obj>)>,
    pub next: u64,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub granted: bool,
    pub spur: u64,
    pub pc: Vec<T>,
    pub model: Rc<Model>,
    pub bound: Rc<HashMap<u32, u128>>,
    pub conc: Rc<HashMap<T, u128>>,
    pub inputs: Vec<Input>,
    pub nundef: u32,
    pub notes: Vec<V>,
    pub heap: i64,
    pub steps: u64,
    pub forks: u32,
    pub unwinding: u32,
    pub last_panic: Option<Rc<str>>,
}

pub enum Stop {
    /// Path ended normally, or was cut by an assumption.
    Done,
    Infeasible,
    /// Violation recorded; path ends.
    Violation,
    /// Engine limit: makes the run inconclusive.
    Give(String),
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u16, u128)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub ub_checks: u64,
    pub cache_hits: u64,
    pub gave_up: BTreeMap<String, u64>,
    pub reach: BTreeMap<u32, u64>,
    pub max_depth: u64,
}

pub struct Witness {
    pub inputs: Vec<(u32, u16, u128)>,
    pub notes: Vec<u64>,
}

pub struct Engine {
    pub prog: Program,
    pub ts: Terms,
    pub smt: Smt,
    pub work: Vec<Box<State>>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    seen: HashSet<String>,
    cache: HashMap<Vec<T>, Option<Rc<Model>>>,
    pub params: HashMap<u32, u64>,
    pub stop_on_fork: bool,
    pub concrete: Option<Vec<u64>>,
    pub max_steps: u64,
    pub max_viol: usize,
    pub witness_every: u64,
    pub max_witness: usize,
    pub witnesses: Vec<Witness>,
    pub rng: u64,
    pub trace: bool,
}

fn undef_byte(b: u64) -> bool {
    b & B_KIND == 0
}

impl Engine {
    pub fn new(prog: Program) -> Self {
        Engine {
            prog,
            ts: Terms::new(),
            smt: Smt::new(),
            work: vec![],
            stats: Stats::default(),
            violations: vec![],
            seen: HashSet::new(),
            cache: HashMap::new(),
            params: HashMap::new(),
            stop_on_fork: false,
            concrete: None,
            max_steps: 3_000_000,
            max_viol: 1,
            witness_every: 0,
            max_witness: 0,
            witnesses: vec![],
            rng: 0x9E3779B97F4A7C15,
            trace: false,
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<Box<State>, String> {
        let id = self.prog.find(entry).ok_or(format!("no entry function {entry}"))?;
        let f = self.prog.func(id)?;
        self.prog.funcs[id as usize].executed = true;
        let fr = Frame {
            blk: 0,
            prev: u32::MAX,
            ip: 0,
            regs: vec![V::U; f.nregs as usize],
            allocas: vec![],
            ret: None,
            inv: None,
            is_try: false,
            f,
        };
        let spur = self.params.get(&1000).copied().unwrap_or(0);
        Ok(Box::new(State {
            mem: vec![],
            next: MEM_BASE,
            threads: vec![Thread { frames: vec![Rc::new(fr)], joining: false }],
            cur: 0,
            granted: false,
            spur,
            pc: vec![],
            model: Rc::new(Model::new()),
            bound: Rc::new(HashMap::new()),
            conc: Rc::new(HashMap::new()),
            inputs: vec![],
            nundef: 0,
            notes: vec![],
            heap: 0,
            steps: 0,
            forks: 0,
            unwinding: 0,
            last_panic: None,
        }))
    }

    fn stack(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.threads[st.cur]
            .frames
            .iter()
            .rev()
            .map(|f| self.prog.funcs[f.f.id as usize].name.clone())
            .collect();
        v.truncate(12);
        v
    }

    fn assignment(&self, st: &State, m: &Model) -> Vec<(u32, u16, u128)> {
        st.inputs
            .iter()
            .map(|i| (i.tag, i.bits, i.val.unwrap_or_else(|| m.get(&i.var).copied().unwrap_or(0) & mask(i.bits))))
            .collect()
    }

    fn violation(&mut self, st: &State, kind: &str, id: u32, msg: String, m: &Model) {
        let stack = self.stack(st);
        let key = format!("{kind}:{id}:{}", stack.first().cloned().unwrap_or_default());
        if self.seen.insert(key) {
            let inputs = self.assignment(st, m);
            self.violations.push(Violation { kind: kind.to_string(), id, msg, stack, inputs });
        }
    }

    fn ub<X>(&mut self, st: &State, msg: String) -> R<X> {
        let m = st.model.clone();
        self.violation(st, "ub", 0, msg, &m);
        Err(Stop::Violation)
    }

    // ---------- solver layer ----------

    fn slice(&self, st: &State, cond: T) -> Vec<T> {
        let mut vars: BTreeSet<u32> = self.ts.varset(cond).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if !used[i] && self.ts.varset(c).iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(c);
                    vars.extend(self.ts.varset(c).iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        out.push(cond);
        out.sort_unstable();
        out.dedup();
        out
    }

    /// A model of pc && cond, if any.
    fn feasible(&mut self, st: &State, cond: T) -> R<Option<Rc<Model>>> {
        match self.ts.as_const(cond) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.ts.eval(cond, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let key = self.slice(st, cond);
        let r = if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let r = match self.smt.check(&self.ts, &key) {
                Ans::Sat(m) => Some(Rc::new(m)),
                Ans::Unsat => None,
                Ans::Unknown => return Err(Stop::Give("solver returned unknown".into())),
            };
            self.cache.insert(key, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut n = (*st.model).clone();
            for (k, v) in m.iter() {
                n.insert(*k, *v);
            }
            Rc::new(n)
        }))
    }

    fn bind(&mut self, st: &mut State, t: T, v: u128) {
        let n = self.ts.nodes[t as usize];
        Rc::make_mut(&mut st.conc).insert(t, v);
        if n.op == Op::Var {
            Rc::make_mut(&mut st.bound).insert(n.k as u32, v);
        } else if n.op == Op::ZExt {
            self.bind(st, n.a, v);
        } else if n.op == Op::Not && n.w == 1 {
            self.bind(st, n.a, 1 - v);
        }
    }

    fn assume(&mut self, st: &mut State, cond: T, m: Rc<Model>) {
        st.model = m;
        if self.ts.as_const(cond).is_some() {
            return;
        }
        let n = self.ts.nodes[cond as usize];
        match n.op {
            Op::And => {
                let m = st.model.clone();
                self.assume(st, n.a, m.clone());
                self.assume(st, n.b, m);
                return;
            }
            Op::Eq => {
                if let Some(k) = self.ts.as_const(n.b) {
                    self.bind(st, n.a, k);
                }
            }
            Op::Not => {
                self.bind(st, n.a, 0);
            }
            _ => self.bind(st, cond, 1),
        }
        if !st.pc.contains(&cond) {
            st.pc.push(cond);
        }
    }

    /// Constant value if already determined on this path.
    fn known(&mut self, st: &State, t: T) -> Option<u128> {
        if let Some(c) = self.ts.as_const(t) {
            return Some(c);
        }
        if let Some(&c) = st.conc.get(&t) {
            return Some(c);
        }
        if !st.bound.is_empty() && self.ts.varset(t).iter().all(|v| st.bound.contains_key(v)) {
            let b = st.bound.clone();
            return Some(self.ts.eval(t, &b));
        }
        None
    }

    /// Does the truth of `cond` depend on uninitialised data?
    fn undef_check(&mut self, st: &State, cond: T, what: &str) -> R<()> {
        if !self.ts.has_undef(cond) {
            return Ok(());
        }
        let mut map = HashMap::new();
        let mut all = self.slice(st, cond);
        let vars: BTreeSet<u32> = all.iter().flat_map(|&t| self.ts.varset(t).to_vec()).collect();
        for v in vars {
            if self.ts.vars[v as usize].undef {
                let w = self.ts.vars[v as usize].w;
                let r = self.ts.undef(0x8000_0000 + v, w);
                map.insert(v, r);
            }
        }
        let mut memo = HashMap::new();
        let copies: Vec<T> =
            all.iter().filter(|&&t| t != cond).copied().collect::<Vec<_>>().iter().map(|&t| self.ts.subst(t, &map, &mut memo)).collect();
        let c2 = self.ts.subst(cond, &map, &mut memo);
        let n2 = self.ts.not(c2);
        all.extend(copies);
        all.push(n2);
        all.sort_unstable();
        all.dedup();
        match self.smt.check(&self.ts, &all) {
            Ans::Unsat => Ok(()),
            Ans::Sat(m) => {
                let mut n = (*st.model).clone();
                n.extend(m);
                self.violation(st, "ub", 1, format!("{what} depends on uninitialised memory"), &n);
                Err(Stop::Violation)
            }
            Ans::Unknown => Err(Stop::Give("solver returned unknown".into())),
        }
    }

    /// Fork on `cond`: the current state takes the returned side.
    fn branch(&mut self, st: &mut Box<State>, cond: T) -> R<bool> {
        if let Some(c) = self.known(st, cond) {
            return Ok(c == 1);
        }
        self.undef_check(st, cond, "branch")?;
        let nc = self.ts.not(cond);
        let mt = self.feasible(st, cond)?;
        let mf = self.feasible(st, nc)?;
        match (mt, mf) {
            (Some(mt), Some(mf)) => {
                let mut o = st.clone();
                self.assume(&mut o, nc, mf);
                o.forks += 1;
                self.push_fork(o);
                self.assume(st, cond, mt);
                st.forks += 1;
                Ok(true)
            }
            (Some(m), None) => {
                self.assume_implied(st, cond, m);
                Ok(true)
            }
            (None, Some(m)) => {
                self.assume_implied(st, nc, m);
                Ok(false)
            }
            (None, None) => Err(Stop::Infeasible),
        }
    }

    fn assume_implied(&mut self, st: &mut State, cond: T, m: Rc<Model>) {
        // implied by pc: only remember it for lookups
        st.model = m;
        let n = self.ts.nodes[cond as usize];
        match n.op {
            Op::Eq => {
                if let Some(k) = self.ts.as_const(n.b) {
                    self.bind(st, n.a, k);
                }
                self.bind(st, cond, 1);
            }
            Op::Not => self.bind(st, n.a, 0),
            _ => self.bind(st, cond, 1),
        }
    }

    fn push_fork(&mut self, o: Box<State>) {
        self.stats.forks += 1;
        self.work.push(o);
    }

    /// Concretise a value by forking over all its feasible values. Forked
    /// states re-execute the current instruction.
    fn concretize(&mut self, st: &mut Box<State>, v: &V, w: u16, what: &str) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::U => self.ub(st, format!("{what} is uninitialised")),
            V::A(_) => Err(Stop::Give("concretize aggregate".into())),
            V::T(t) => {
                let t = *t;
                let _ = w;
                if let Some(c) = self.known(st, t) {
                    return Ok(c);
                }
                let tw = self.ts.w(t);
                let mut vals: Vec<(u128, Rc<Model>)> = vec![];
                let mut excl = self.ts.con(1, 1);
                let base = st.model.clone();
                let mut m = Some(base);
                while let Some(mm) = m {
                    let x = self.ts.eval(t, &mm);
                    let k = self.ts.con(x, tw);
                    let e = self.ts.bin(Op::Eq, t, k);
                    if vals.is_empty() {
                        self.undef_check(st, e, what)?;
                    }
                    vals.push((x, mm));
                    if vals.len() > 600 {
                        return Err(Stop::Give(format!("too many values for {what}")));
                    }
                    let ne = self.ts.not(e);
                    excl = self.ts.bin(Op::And, excl, ne);
                    m = self.feasible(st, excl)?;
                }
                let only = vals.len() == 1;
                for (x, mm) in vals.drain(1..).rev() {
                    let k = self.ts.con(x, tw);
                    let e = self.ts.bin(Op::Eq, t, k);
                    let mut o = st.clone();
                    self.assume(&mut o, e, mm);
                    Rc::make_mut(&mut o.conc).insert(t, x);
                    o.forks += 1;
                    self.push_fork(o);
                }
                let (x, mm) = vals.pop().unwrap();
                let k = self.ts.con(x, tw);
                let e = self.ts.bin(Op::Eq, t, k);
                if only {
                    self.assume_implied(st, e, mm);
                } else {
                    self.assume(st, e, mm);
                    st.forks += 1;
                }
                Rc::make_mut(&mut st.conc).insert(t, x);
                Ok(x)
            }
        }
    }

    // ---------- values ----------

    fn fresh_undef(&mut self, st: &mut State, w: u16) -> T {
        let k = st.nundef;
        st.nundef += 1;
        self.ts.undef(k, w)
    }

    fn term(&mut self, st: &mut State, v: &V, w: u16) -> T {
        match v {
            V::C(c) => self.ts.con(*c, w),
            V::T(t) => *t,
            V::U => self.fresh_undef(st, w),
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }

    fn tv(&self, t: T) -> V {
        match self.ts.as_const(t) {
            Some(c) => V::C(c),
            None => V::T(t),
        }
    }

    /// Flatten a (vector) value into one integer.
    fn flat(&mut self, st: &mut State, ty: &Ty, v: &V) -> V {
        match (ty, v) {
            (Ty::Vec(_, e), V::A(xs)) => {
                let ew = e.bits();
                if xs.iter().all(|x| matches!(x, V::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in xs.iter().enumerate() {
                        if let V::C(c) = x {
                            r |= c << (i as u32 * ew as u32);
                        }
                    }
                    return V::C(r);
                }
                let mut acc = self.term(st, &xs[0], ew);
                for x in &xs[1..] {
                    let t = self.term(st, x, ew);
                    acc = self.ts.concat(t, acc);
                }
                self.tv(acc)
            }
            _ => v.clone(),
        }
    }

    fn unflat(&mut self, ty: &Ty, v: V) -> V {
        if let Ty::Vec(n, e) = ty {
            let ew = e.bits();
            let xs = (0..*n)
                .map(|i| match &v {
                    V::C(c) => V::C((c >> (i as u32 * ew as u32)) & mask(ew)),
                    V::T(t) => {
                        let x = self.ts.extract(*t, i as u16 * ew, ew);
                        self.tv(x)
                    }
                    _ => V::U,
                })
                .collect();
            V::A(Rc::new(xs))
        } else {
            v
        }
    }

    fn bin_scalar(&mut self, st: &mut Box<State>, op: Bin, w: u16, a: &V, b: &V) -> R<V> {
        let top = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            match op {
                Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem if *y == 0 => {
                    return self.ub(st, "division by zero".into());
                }
                Bin::Shl | Bin::LShr | Bin::AShr if *y >= w as u128 => return Ok(V::U),
                _ => {}
            }
            return Ok(V::C(fold2(top, w, *x, *y)));
        }
        if matches!(op, Bin::And) {
            if matches!(a, V::C(0)) || matches!(b, V::C(0)) {
                return Ok(V::C(0));
            }
        }
        let x = self.term(st, a, w);
        let y = self.term(st, b, w);
        if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
            let z = self.ts.con(0, w);
            let e = self.ts.bin(Op::Eq, y, z);
            if let Some(m) = self.feasible(st, e)? {
                self.violation(st, "ub", 2, "division by zero".into(), &m);
                return Err(Stop::Violation);
            }
        }
        let r = self.ts.bin(top, x, y);
        Ok(self.tv(r))
    }

    fn icmp_scalar(&mut self, st: &mut State, p: Pred, w: u16, a: &V, b: &V) -> V {
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ult, true, true),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ult, false, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Slt, true, true),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Slt, false, true),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold2(op, w, *x, *y) ^ neg as u128);
        }
        let x = self.term(st, a, w);
        let y = self.term(st, b, w);
        let mut r = self.ts.bin(op, x, y);
        if neg {
            r = self.ts.not(r);
        }
        self.tv(r)
    }

    fn select(&mut self, st: &mut State, ty: &Ty, c: T, a: &V, b: &V) -> V {
        match ty {
            Ty::St(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = ty.nfields();
                let g = |v: &V, i: u64| match v {
                    V::A(x) => x[i as usize].clone(),
                    _ => V::U,
                };
                let xs = (0..n).map(|i| self.select(st, &ty.field_ty(i), c, &g(a, i), &g(b, i))).collect();
                V::A(Rc::new(xs))
            }
            _ => {
                if let (V::U, V::U) = (a, b) {
                    return V::U;
                }
                let w = ty.bits();
                let x = self.term(st, a, w);
                let y = self.term(st, b, w);
                let r = self.ts.ite(c, x, y);
                self.tv(r)
            }
        }
    }

    // ---------- memory ----------

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8) -> u64 {
        // Exactly `align`-aligned (never more), with a guard gap, never reused.
        let mut base = (st.next + 32 + align - 1) / align * align;
        if align < 64 && base % (align * 2) == 0 {
            base += align;
        }
        st.next = base + size.max(1);
        st.mem.push((base, Rc::new(Obj { size, align, kind, b: vec![0; size as usize] })));
        if kind == K_HEAP {
            st.heap += 1;
        }
        base
    }

    fn obj_index(&self, st: &State, addr: u64) -> Option<usize> {
        let k = st.mem.partition_point(|(b, _)| *b <= addr);
        if k == 0 {
            return None;
        }
        let (b, o) = &st.mem[k - 1];
        if addr <= b + o.size {
            Some(k - 1)
        } else {
            None
        }
    }

    /// (index in st.mem, offset) of a checked access.
    fn access(&mut self, st: &mut State, addr: u64, size: u64, write: bool) -> R<(usize, usize)> {
        self.stats.ub_checks += 1;
        if let Some(k) = self.obj_index(st, addr) {
            let (b, o) = &st.mem[k];
            let off = addr - b;
            if off + size <= o.size {
                return Ok((k, off as usize));
            }
            let msg = format!(
                "{} of {size} bytes at offset {off} of a {}-byte object",
                if write { "write" } else { "read" },
                o.size
            );
            return self.ub(st, msg);
        }
        if (GLOB_BASE..MEM_BASE).contains(&addr) {
            if let Some((b, o)) = self.prog.glob_obj(addr) {
                if addr + size <= b + o.size && (!write || o.kind == K_GLOBAL) {
                    let k = st.mem.partition_point(|(x, _)| *x <= b);
                    st.mem.insert(k, (b, o));
                    return Ok((k, (addr - b) as usize));
                }
            }
        }
        let msg = format!(
            "{} of {size} bytes at {addr:#x}: no live object there",
            if write { "write" } else { "read" }
        );
        self.ub(st, msg)
    }

    fn check_align(&mut self, st: &State, addr: u64, align: u64) -> R<()> {
        if align > 1 && addr % align != 0 {
            return self.ub(st, format!("misaligned access at {addr:#x} (align {align})"));
        }
        Ok(())
    }

    fn load_bytes(&mut self, st: &mut State, k: usize, off: usize, n: usize) -> V {
        let o = st.mem[k].1.clone();
        let b = &o.b[off..off + n];
        if b.iter().all(|x| x & B_KIND == B_CONC) {
            let mut r = 0u128;
            for (i, x) in b.iter().enumerate() {
                r |= ((x & 0xff) as u128) << (8 * i);
            }
            return V::C(r);
        }
        if b.iter().all(|x| undef_byte(*x)) {
            return V::U;
        }
        let mut acc: Option<T> = None;
        for x in b.iter() {
            let t = match x & B_KIND {
                B_CONC => self.ts.con((x & 0xff) as u128, 8),
                B_SYM => {
                    let t = ((x >> 8) & 0xffff_ffff) as T;
                    let i = (x & 0xff) as u16;
                    self.ts.extract(t, i * 8, 8)
                }
                _ => self.fresh_undef(st, 8),
            };
            acc = Some(match acc {
                None => t,
                Some(a) => self.ts.concat(t, a),
            });
        }
        self.tv(acc.unwrap())
    }

    fn load(&mut self, st: &mut State, ty: &Ty, k: usize, off: usize) -> R<V> {
        match ty {
            Ty::St(..) | Ty::Arr(..) => {
                let mut xs = vec![];
                for i in 0..ty.nfields() {
                    let (ft, fo) = ty.field(i);
                    xs.push(self.load(st, &ft, k, off + fo as usize)?);
                }
                Ok(V::A(Rc::new(xs)))
            }
            Ty::Vec(_, e) if e.bits() % 8 == 0 => {
                let mut xs = vec![];
                for i in 0..ty.nfields() {
                    let (ft, fo) = ty.field(i);
                    xs.push(self.load(st, &ft, k, off + fo as usize)?);
                }
                Ok(V::A(Rc::new(xs)))
            }
            Ty::Vec(..) => {
                let v = self.load_bytes(st, k, off, ty.size() as usize);
                Ok(self.unflat(ty, v))
            }
            _ => {
                let n = ty.store_size() as usize;
                let w = ty.bits();
                let v = self.load_bytes(st, k, off, n);
                Ok(match v {
                    V::C(c) => V::C(c & mask(w)),
                    V::T(t) if (w as usize) < n * 8 => {
                        let x = self.ts.extract(t, 0, w);
                        self.tv(x)
                    }
                    v => v,
                })
            }
        }
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, k: usize, off: usize) {
        match (ty, v) {
            (Ty::Vec(_, e), V::A(_)) if e.bits() % 8 != 0 => {
                let f = self.flat(st, ty, v);
                let it = Ty::I(ty.size() as u16 * 8);
                let f = match f {
                    V::T(t) => {
                        let z = self.ts.zext(t, it.bits());
                        self.tv(z)
                    }
                    f => f,
                };
                self.store(st, &it, &f, k, off);
            }
            (_, V::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let (ft, fo) = ty.field(i as u64);
                    self.store(st, &ft, x, k, off + fo as usize);
                }
            }
            _ => {
                let n = ty.store_size() as usize;
                let v = match v {
                    V::T(t) if self.ts.w(*t) as usize != n * 8 => V::T(self.ts.zext(*t, n as u16 * 8)),
                    v => v.clone(),
                };
                let o = Rc::make_mut(&mut st.mem[k].1);
                let b = &mut o.b[off..off + n];
                match v {
                    V::C(c) => {
                        for (i, x) in b.iter_mut().enumerate() {
                            *x = B_CONC | ((c >> (8 * i)) as u64 & 0xff);
                        }
                    }
                    V::T(t) => {
                        for (i, x) in b.iter_mut().enumerate() {
                            *x = B_SYM | ((t as u64) << 8) | i as u64;
                        }
                    }
                    _ => b.fill(0),
                }
            }
        }
    }

    fn dealloc(&mut self, st: &mut State, addr: u64, size: u64, align: u64) -> R<Rc<Obj>> {
        match self.obj_index(st, addr) {
            Some(k) if st.mem[k].0 == addr && st.mem[k].1.kind == K_HEAP => {
                let o = &st.mem[k].1;
                if o.size != size || o.align != align {
                    let msg = format!(
                        "deallocation with size {size} align {align} of an object of size {} align {}",
                        o.size, o.align
                    );
                    return self.ub(st, msg);
                }
                st.heap -= 1;
                Ok(st.mem.remove(k).1)
            }
            _ => self.ub(st, format!("deallocation of {addr:#x}: not a live heap block")),
        }
    }

    fn pop_frame(&mut self, st: &mut State) -> Rc<Frame> {
        let fr = st.threads[st.cur].frames.pop().unwrap();
        for &a in &fr.allocas {
            if let Ok(k) = st.mem.binary_search_by_key(&a, |(b, _)| *b) {
                st.mem.remove(k);
            }
        }
        fr
    }

    // ---------- control ----------

    fn enter_block(&mut self, st: &mut State, target: u32) {
        let fr = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
        let prev = fr.blk;
        fr.prev = prev;
        fr.blk = target;
        fr.ip = 0;
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let vals: Vec<V> = b
                .phis
                .iter()
                .map(|p| {
                    let (_, o) = p.ins.iter().find(|(x, _)| *x == prev).expect("phi edge");
                    match o {
                        O::R(r) => fr.regs[*r as usize].clone(),
                        O::C(v) => v.clone(),
                    }
                })
                .collect();
            for (p, v) in b.phis.iter().zip(vals) {
                fr.regs[p.d as usize] = v;
            }
        }
    }

    fn unwind(&mut self, st: &mut Box<State>) -> R<()> {
        loop {
            let fr = self.pop_frame(st);
            if fr.is_try {
                st.unwinding = st.unwinding.saturating_sub(1);
                let top = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
                if let Some(d) = fr.ret {
                    top.regs[d as usize] = V::C(1);
                }
                return self.after_call(st, fr.inv);
            }
            if st.threads[st.cur].frames.is_empty() {
                let msg = format!("panic escaped: {}", st.last_panic.clone().unwrap_or("".into()));
                st.threads[st.cur].frames.push(fr);
                let m = st.model.clone();
                self.violation(st, "panic", 0, msg, &m);
                return Err(Stop::Violation);
            }
            if let Some((_, ub)) = fr.inv {
                self.enter_block(st, ub);
                return Ok(());
            }
        }
    }

    fn after_call(&mut self, st: &mut Box<State>, inv: Option<(u32, u32)>) -> R<()> {
        match inv {
            Some((n, _)) => self.enter_block(st, n),
            None => {
                let top = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
                top.ip += 1;
            }
        }
        Ok(())
    }

    fn panic(&mut self, st: &mut Box<State>, name: &str, inv: Option<(u32, u32)>) -> R<()> {
        st.unwinding += 1;
        // who panicked: callee name and the calling function
        let caller = self.stack(st).into_iter().take(3).collect::<Vec<_>>().join(" < ");
        st.last_panic = Some(format!("{name} in {caller}").into());
        if let Some((_, ub)) = inv {
            self.enter_block(st, ub);
            return Ok(());
        }
        self.unwind(st)
    }

    fn others_alive(&self, st: &State) -> bool {
        st.threads.iter().enumerate().filter(|(i, t)| *i != 0 && !t.frames.is_empty()).count() > 0
            && st.threads[0].joining
    }

    /// Choose which thread runs next (main thread waits in join).
    fn schedule(&mut self, st: &mut Box<State>) -> R<()> {
        let alive: Vec<usize> = (1..st.threads.len()).filter(|&i| !st.threads[i].frames.is_empty()).collect();
        if alive.is_empty() {
            st.cur = 0;
            st.granted = true;
            return Ok(());
        }
        if alive.len() == 1 {
            st.cur = alive[0];
            st.granted = true;
            return Ok(());
        }
        let v = self.sym_input(st, 3, 9000);
        let t = match v {
            V::C(c) => {
                st.cur = alive[c as usize % alive.len()];
                st.granted = true;
                return Ok(());
            }
            V::T(t) => t,
            _ => unreachable!(),
        };
        // one branch per runnable thread
        let mut first = true;
        let base = st.clone();
        for (i, &a) in alive.iter().enumerate() {
            let k = self.ts.con(i as u128, 3);
            let e = self.ts.bin(Op::Eq, t, k);
            let m = match self.feasible(&base, e)? {
                Some(m) => m,
                None => continue,
            };
            if first {
                first = false;
                self.assume(st, e, m);
                st.cur = a;
                st.granted = true;
            } else {
                let mut o = base.clone();
                self.assume(&mut o, e, m);
                o.cur = a;
                o.granted = true;
                o.forks += 1;
                self.push_fork(o);
            }
        }
        Ok(())
    }

    fn sym_input(&mut self, st: &mut State, bits: u16, tag: u32) -> V {
        let k = st.inputs.len() as u32;
        if let Some(vals) = &self.concrete {
            let v = match vals.get(k as usize) {
                Some(v) => *v as u128 & mask(bits),
                None => {
                    // xorshift
                    self.rng ^= self.rng << 13;
                    self.rng ^= self.rng >> 7;
                    self.rng ^= self.rng << 17;
                    (self.rng >> 11) as u128 & mask(bits)
                }
            };
            st.inputs.push(Input { var: u32::MAX, bits, tag, val: Some(v) });
            return V::C(v);
        }
        let (id, t) = self.ts.input(k, bits);
        st.inputs.push(Input { var: id, bits, tag, val: None });
        V::T(t)
    }

    /// Bound the memory held by the query cache.
    pub fn trim(&mut self) {
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
    }

    pub fn finish_path(&mut self, st: &mut State) {
        self.stats.paths += 1;
        self.stats.max_depth = self.stats.max_depth.max(st.forks as u64);
        if self.witness_every > 0 && self.witnesses.len() < self.max_witness {
            let pick = self.stats.paths % self.witness_every == 1 || self.witness_every == 1;
            if pick {
                let m = st.model.clone();
                let inputs = self.assignment(st, &m);
                let notes = st.notes.clone();
                let notes = notes
                    .iter()
                    .map(|v| match v {
                        V::C(c) => *c as u64,
                        V::T(t) => self.ts.eval(*t, &m) as u64,
                        _ => 0,
                    })
                    .collect();
                self.witnesses.push(Witness { inputs, notes });
            }
        }
    }

    /// Run one state until it ends (or forks, when stop_on_fork is set).
    pub fn run(&mut self, mut st: Box<State>) {
        let w0 = self.work.len();
        loop {
            match self.step(&mut st) {
                Ok(()) => {
                    if self.stop_on_fork && self.work.len() > w0 {
                        self.work.push(st);
                        return;
                    }
                }
                Err(Stop::Done) => {
                    self.finish_path(&mut st);
                    return;
                }
                Err(Stop::Infeasible) => {
                    self.stats.infeasible += 1;
                    return;
                }
                Err(Stop::Violation) => {
                    self.stats.paths += 1;
                    return;
                }
                Err(Stop::Give(m)) => {
                    let stack: Vec<String> = self.stack(&st).into_iter().take(2).collect();
                    *self.stats.gave_up.entry(format!("{m} in {}", stack.join(" < "))).or_insert(0) += 1;
                    return;
                }
            }
        }
    }

    /// Execute instructions of the current frame until a call, branch or stop.
    fn step(&mut self, st: &mut Box<State>) -> R<()> {
        let f = st.threads[st.cur].frames.last().unwrap().f.clone();
        loop {
            let fr = st.threads[st.cur].frames.last().unwrap();
            let (blk, ip) = (fr.blk, fr.ip);
            // functions live as long as the program; the reference outlives the borrow of `st`
            let ins: &I = unsafe { &*(&f.blocks[blk as usize].ins[ip as usize] as *const I) };
            st.steps += 1;
            self.stats.steps += 1;
            if st.steps > self.max_steps {
                let m = st.model.clone();
                self.violation(st, "hang", 0, format!("more than {} instructions on one path", self.max_steps), &m);
                return Err(Stop::Violation);
            }
            let again = self.exec(st, ins)?;
            if !again {
                return Ok(());
            }
        }
    }

    #[inline]
    fn val(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.threads[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
            O::C(v) => v.clone(),
        }
    }

    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    fn vmap2(&mut self, st: &mut Box<State>, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &mut Box<State>, u16, &V, &V) -> R<V>) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let w = e.bits();
            let g = |v: &V, i: usize| match v {
                V::A(x) => x[i].clone(),
                _ => V::U,
            };
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(f(self, st, w, &g(a, i), &g(b, i))?);
            }
            Ok(V::A(Rc::new(out)))
        } else {
            f(self, st, ty.bits(), a, b)
        }
    }

    /// Atomic operation: scheduling point when other threads are alive.
    fn atomic_point(&mut self, st: &mut Box<State>) -> R<bool> {
        if self.others_alive(st) && st.cur != 0 {
            if st.granted {
                st.granted = false;
                return Ok(false);
            }
            self.schedule(st)?;
            return Ok(true); // re-dispatch
        }
        Ok(false)
    }

    /// Returns true to continue in the same frame.
    fn exec(&mut self, st: &mut Box<State>, ins: &I) -> R<bool> {
        match ins {
            I::Bin { op, ty, d, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let op = *op;
                let r = if let Ty::Vec(..) = ty {
                    self.vmap2(st, ty, &x, &y, &mut |s, st, w, a, b| s.bin_scalar(st, op, w, a, b))?
                } else {
                    self.bin_scalar(st, op, ty.bits(), &x, &y)?
                };
                self.set(st, *d, r);
            }
            I::ICmp { p, ty, d, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let p = *p;
                let r = if let Ty::Vec(..) = ty {
                    self.vmap2(st, ty, &x, &y, &mut |s, st, w, a, b| Ok(s.icmp_scalar(st, p, w, a, b)))?
                } else {
                    self.icmp_scalar(st, p, ty.bits(), &x, &y)
                };
                self.set(st, *d, r);
            }
            I::Load { ty, d, p, align, atomic } => {
                if *atomic && self.atomic_point(st)? {
                    return Ok(false);
                }
                let pv = self.val(st, p);
                let addr = self.concretize(st, &pv, 64, "load address")? as u64;
                let n = if let Ty::I(_) = ty { ty.store_size() } else { ty.size() };
                if n == 0 {
                    let r = V::A(Rc::new(vec![]));
                    self.set(st, *d, r);
                    return Ok(true);
                }
                self.check_align(st, addr, *align)?;
                let (k, off) = self.access(st, addr, n, false)?;
                let v = self.load(st, ty, k, off)?;
                self.set(st, *d, v);
            }
            I::Store { ty, v, p, align, atomic } => {
                if *atomic && self.atomic_point(st)? {
                    return Ok(false);
                }
                let pv = self.val(st, p);
                let addr = self.concretize(st, &pv, 64, "store address")? as u64;
                let n = if let Ty::I(_) = ty { ty.store_size() } else { ty.size() };
                let x = self.val(st, v);
                if n > 0 {
                    self.check_align(st, addr, *align)?;
                    let (k, off) = self.access(st, addr, n, true)?;
                    if matches!(x, V::U) {
                        let o = Rc::make_mut(&mut st.mem[k].1);
                        o.b[off..off + n as usize].fill(0);
                    } else {
                        self.store(st, ty, &x, k, off);
                    }
                }
                self.adv(st);
            }
            I::Gep { d, base, off, idx } => {
                let b = self.val(st, base);
                let mut acc = match b {
                    V::C(c) => V::C((c as u64).wrapping_add(*off as u64) as u128),
                    V::U => V::U,
                    V::T(t) => {
                        let k = self.ts.con(*off as i128 as u128, 64);
                        let r = self.ts.bin(Op::Add, t, k);
                        self.tv(r)
                    }
                    V::A(_) => return Err(Stop::Give("vector gep".into())),
                };
                for (o, w, scale) in idx {
                    let v = self.val(st, o);
                    acc = match (&acc, &v) {
                        (V::C(a), V::C(c)) => {
                            let i = crate::term::sext(*c, *w) as i64;
                            V::C((*a as u64).wrapping_add(i.wrapping_mul(*scale) as u64) as u128)
                        }
                        (V::U, _) | (_, V::U) => V::U,
                        _ => {
                            let a = self.term(st, &acc, 64);
                            let i = self.term(st, &v, *w);
                            let i = self.ts.sext(i, 64);
                            let s = self.ts.con(*scale as i128 as u128, 64);
                            let m = self.ts.bin(Op::Mul, i, s);
                            let r = self.ts.bin(Op::Add, a, m);
                            self.tv(r)
                        }
                    };
                }
                self.set(st, *d, acc);
            }
            I::Cast { k, from, to, d, a } => {
                let x = self.val(st, a);
                let r = self.cast(st, *k, from, to, x)?;
                self.set(st, *d, r);
            }
            I::Select { ty, d, c, a, b, vec } => {
                let cv = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = if *vec {
                    let n = ty.nfields() as usize;
                    let g = |v: &V, i: usize| match v {
                        V::A(x) => x[i].clone(),
                        _ => V::U,
                    };
                    let mut out = vec![];
                    for i in 0..n {
                        let ci = g(&cv, i);
                        out.push(match ci {
                            V::C(1) => g(&x, i),
                            V::C(_) => g(&y, i),
                            ci => {
                                let t = self.term(st, &ci, 1);
                                self.select(st, &ty.field_ty(i as u64), t, &g(&x, i), &g(&y, i))
                            }
                        });
                    }
                    V::A(Rc::new(out))
                } else {
                    match cv {
                        V::C(1) => x,
                        V::C(_) => y,
                        cv => {
                            let t = self.term(st, &cv, 1);
                            match self.known(st, t) {
                                Some(1) => x,
                                Some(_) => y,
                                None => self.select(st, ty, t, &x, &y),
                            }
                        }
                    }
                };
                self.set(st, *d, r);
            }
            I::Freeze { ty, d, a } => {
                let x = self.val(st, a);
                let r = self.freeze(st, ty, x);
                self.set(st, *d, r);
            }
            I::Br(b) => self.enter_block(st, *b),
            I::CondBr(c, a, b) => {
                let v = self.val(st, c);
                let t = match v {
                    V::C(c) => c == 1,
                    V::U => return self.ub(st, "branch on uninitialised value".into()),
                    V::T(t) => {
                        let n = self.work.len();
                        let side = self.branch(st, t)?;
                        if self.work.len() > n {
                            // the forked copy takes the other edge
                            let mut o = self.work.pop().unwrap();
                            let oc = o.cur;
                            debug_assert_eq!(oc, st.cur);
                            self.enter_block(&mut o, if side { *b } else { *a });
                            self.work.push(o);
                        }
                        side
                    }
                    V::A(_) => return Err(Stop::Give("branch on aggregate".into())),
                };
                self.enter_block(st, if t { *a } else { *b });
                if self.stop_on_fork {
                    return Ok(false);
                }
            }
            I::Switch { w, v, def, cases } => {
                let x = self.val(st, v);
                match x {
                    V::C(c) => {
                        let t = cases.iter().find(|(k, _)| *k == c).map(|(_, b)| *b).unwrap_or(*def);
                        self.enter_block(st, t);
                    }
                    V::U => return self.ub(st, "switch on uninitialised value".into()),
                    V::A(_) => return Err(Stop::Give("switch on aggregate".into())),
                    V::T(t) => {
                        if let Some(c) = self.known(st, t) {
                            let tb = cases.iter().find(|(k, _)| *k == c).map(|(_, b)| *b).unwrap_or(*def);
                            self.enter_block(st, tb);
                            return Ok(true);
                        }
                        // group cases by target
                        let mut order: Vec<u32> = vec![];
                        let mut conds: HashMap<u32, T> = HashMap::new();
                        let mut none = self.ts.con(1, 1);
                        for (k, b) in cases {
                            let kc = self.ts.con(*k, *w);
                            let e = self.ts.bin(Op::Eq, t, kc);
                            let ne = self.ts.not(e);
                            none = self.ts.bin(Op::And, none, ne);
                            if let Some(c) = conds.get(b).copied() {
                                let o = self.ts.bin(Op::Or, c, e);
                                conds.insert(*b, o);
                            } else {
                                order.push(*b);
                                conds.insert(*b, e);
                            }
                        }
                        if let Some(c) = conds.get(def).copied() {
                            let o = self.ts.bin(Op::Or, c, none);
                            conds.insert(*def, o);
                        } else {
                            order.push(*def);
                            conds.insert(*def, none);
                        }
                        let mut feas = vec![];
                        for b in order {
                            let c = conds[&b];
                            self.undef_check(st, c, "switch")?;
                            if let Some(m) = self.feasible(st, c)? {
                                feas.push((b, c, m));
                            }
                        }
                        if feas.is_empty() {
                            return Err(Stop::Infeasible);
                        }
                        for (b, c, m) in feas.drain(1..).rev().collect::<Vec<_>>() {
                            let mut o = st.clone();
                            self.assume(&mut o, c, m);
                            o.forks += 1;
                            self.enter_block(&mut o, b);
                            self.push_fork(o);
                        }
                        let (b, c, m) = feas.pop().unwrap();
                        self.assume(st, c, m);
                        st.forks += 1;
                        self.enter_block(st, b);
                        if self.stop_on_fork {
                            return Ok(false);
                        }
                    }
                }
            }
            I::Ret(v) => {
                let r = match v {
                    Some((_, o)) => Some(self.val(st, o)),
                    None => None,
                };
                let fr = self.pop_frame(st);
                if st.threads[st.cur].frames.is_empty() {
                    if st.cur == 0 {
                        return Err(Stop::Done);
                    }
                    self.schedule(st)?;
                    return Ok(false);
                }
                if let Some(d) = fr.ret {
                    let top = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
                    top.regs[d as usize] = if fr.is_try { V::C(0) } else { r.unwrap_or(V::U) };
                }
                self.after_call(st, fr.inv)?;
                return Ok(false);
            }
            I::Unreachable => {
                return self.ub(st, "reached unreachable code".into());
            }
            I::Resume => {
                self.unwind(st)?;
                return Ok(false);
            }
            I::LandingPad { d } => {
                let v = V::A(Rc::new(vec![V::C(0x5000), V::C(0)]));
                self.set(st, *d, v);
            }
            I::ExtractValue { d, a, path } => {
                let mut v = self.val(st, a);
                for p in path {
                    v = match v {
                        V::A(x) => x[*p as usize].clone(),
                        _ => V::U,
                    };
                }
                self.set(st, *d, v);
            }
            I::InsertValue { d, ty, a, v, path } => {
                let agg = self.val(st, a);
                let x = self.val(st, v);
                fn ins(ty: &Ty, agg: V, path: &[u32], x: V) -> V {
                    if path.is_empty() {
                        return x;
                    }
                    let mut xs = match agg {
                        V::A(a) => (*a).clone(),
                        _ => vec![V::U; ty.nfields() as usize],
                    };
                    let i = path[0] as usize;
                    xs[i] = ins(&ty.field_ty(i as u64), xs[i].clone(), &path[1..], x);
                    V::A(Rc::new(xs))
                }
                let r = ins(ty, agg, path, x);
                self.set(st, *d, r);
            }
            I::ExtractElt { d, a, i, ty: _ } => {
                let iv = self.val(st, i);
                let k = self.concretize(st, &iv, 64, "vector index")? as usize;
                let r = match self.val(st, a) {
                    V::A(x) => x.get(k).cloned().unwrap_or(V::U),
                    _ => V::U,
                };
                self.set(st, *d, r);
            }
            I::InsertElt { d, a, v, i, ty } => {
                let iv = self.val(st, i);
                let k = self.concretize(st, &iv, 64, "vector index")? as usize;
                let mut xs = match self.val(st, a) {
                    V::A(x) => (*x).clone(),
                    _ => vec![V::U; ty.nfields() as usize],
                };
                xs[k] = self.val(st, v);
                self.set(st, *d, V::A(Rc::new(xs)));
            }
            I::Shuffle { d, a, b, n, m } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let g = |v: &V, i: usize| match v {
                    V::A(x) => x[i].clone(),
                    _ => V::U,
                };
                let r = m
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            V::U
                        } else if (i as u32) < *n {
                            g(&x, i as usize)
                        } else {
                            g(&y, i as usize - *n as usize)
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(r)));
            }
            I::CmpXchg { d, ty, p, c, n, weak, align } => {
                if self.atomic_point(st)? {
                    return Ok(false);
                }
                let pv = self.val(st, p);
                let addr = self.concretize(st, &pv, 64, "atomic address")? as u64;
                self.check_align(st, addr, *align)?;
                let (k, off) = self.access(st, addr, ty.size(), true)?;
                let cur = self.load(st, ty, k, off)?;
                let want = self.val(st, c);
                let eq = self.icmp_scalar(st, Pred::Eq, ty.bits(), &cur, &want);
                let eqc = match eq {
                    V::C(c) => c == 1,
                    V::T(t) => match self.concretize(st, &V::T(t), 1, "compare-exchange")? {
                        1 => true,
                        _ => false,
                    },
                    _ => return self.ub(st, "compare-exchange on uninitialised value".into()),
                };
                let mut ok = eqc;
                if eqc && *weak && st.spur > 0 {
                    // spurious failure: symbolic, bounded per path
                    let v = self.sym_input(st, 1, 9001);
                    match v {
                        V::C(c) => {
                            if c == 1 {
                                st.spur -= 1;
                                ok = false;
                            }
                        }
                        V::T(t) => {
                            let nt = self.ts.not(t);
                            if let (Some(mt), Some(mf)) = (self.feasible(st, t)?, self.feasible(st, nt)?) {
                                let mut o = st.clone();
                                self.assume(&mut o, t, mt);
                                o.spur -= 1;
                                o.forks += 1;
                                let r = V::A(Rc::new(vec![cur.clone(), V::C(0)]));
                                self.set(&mut o, *d, r);
                                self.push_fork(o);
                                self.assume(st, nt, mf);
                            }
                        }
                        _ => {}
                    }
                }
                if ok {
                    let nv = self.val(st, n);
                    self.store(st, ty, &nv, k, off);
                }
                let r = V::A(Rc::new(vec![cur, V::C(ok as u128)]));
                self.set(st, *d, r);
            }
            I::Rmw { d, op, ty, p, v, align } => {
                if self.atomic_point(st)? {
                    return Ok(false);
                }
                let pv = self.val(st, p);
                let addr = self.concretize(st, &pv, 64, "atomic address")? as u64;
                self.check_align(st, addr, *align)?;
                let (k, off) = self.access(st, addr, ty.size(), true)?;
                let old = self.load(st, ty, k, off)?;
                let x = self.val(st, v);
                let w = ty.bits();
                let new = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin_scalar(st, Bin::Add, w, &old, &x)?,
                    Rmw::Sub => self.bin_scalar(st, Bin::Sub, w, &old, &x)?,
                    Rmw::And => self.bin_scalar(st, Bin::And, w, &old, &x)?,
                    Rmw::Or => self.bin_scalar(st, Bin::Or, w, &old, &x)?,
                    Rmw::Xor => self.bin_scalar(st, Bin::Xor, w, &old, &x)?,
                    Rmw::Nand => {
                        let t = self.bin_scalar(st, Bin::And, w, &old, &x)?;
                        self.bin_scalar(st, Bin::Xor, w, &t, &V::C(mask(w)))?
                    }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let p = match op {
                            Rmw::Max => Pred::Sgt,
                            Rmw::Min => Pred::Slt,
                            Rmw::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        self.minmax(st, p, w, &old, &x)
                    }
                };
                self.store(st, ty, &new, k, off);
                if *d != u32::MAX {
                    self.set(st, *d, old);
                } else {
                    self.adv(st);
                }
            }
            I::Alloca { d, size, align } => {
                let a = self.alloc(st, *size, *align, K_STACK);
                let fr = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
                fr.allocas.push(a);
                fr.regs[*d as usize] = V::C(a as u128);
                fr.ip += 1;
            }
            I::Fence => self.adv(st),
            I::Call { d, ret, f, name, args, inv } => {
                return self.call(st, *d, ret, f, name, args, *inv);
            }
        }
        Ok(true)
    }

    fn adv(&self, st: &mut State) {
        let fr = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
        fr.ip += 1;
    }

    fn freeze(&mut self, st: &mut State, ty: &Ty, x: V) -> V {
        match ty {
            Ty::St(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let xs = (0..ty.nfields())
                    .map(|i| {
                        let e = match &x {
                            V::A(a) => a[i as usize].clone(),
                            _ => V::U,
                        };
                        self.freeze(st, &ty.field_ty(i), e)
                    })
                    .collect();
                V::A(Rc::new(xs))
            }
            // An arbitrary but fixed value; undef variables already denote one
            // value per load, so only the "depends on" test is lost here.
            _ => match x {
                V::U => V::C(0),
                x => x,
            },
        }
    }

    fn minmax(&mut self, st: &mut State, p: Pred, w: u16, a: &V, b: &V) -> V {
        let c = self.icmp_scalar(st, p, w, a, b);
        match c {
            V::C(1) => a.clone(),
            V::C(_) => b.clone(),
            c => {
                let t = self.term(st, &c, 1);
                self.select(st, &Ty::I(w), t, a, b)
            }
        }
    }

    fn cast(&mut self, st: &mut State, k: Cast, from: &Ty, to: &Ty, x: V) -> R<V> {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
            if k != Cast::Bit {
                let xs = match x {
                    V::A(xs) => xs,
                    _ => return Ok(V::U),
                };
                let mut out = vec![];
                for e in xs.iter() {
                    out.push(self.cast(st, k, fe, te, e.clone())?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            Cast::Bit => {
                let f = self.flat(st, from, &x);
                self.unflat(to, f)
            }
            Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => match x {
                V::C(c) => V::C(c & mask(tw)),
                V::T(t) => {
                    let r = if tw < fw { self.ts.extract(t, 0, tw) } else { self.ts.zext(t, tw) };
                    self.tv(r)
                }
                V::U => {
                    if tw <= fw {
                        V::U
                    } else {
                        let t = self.fresh_undef(st, fw);
                        let r = self.ts.zext(t, tw);
                        self.tv(r)
                    }
                }
                V::A(_) => return Err(Stop::Give("cast".into())),
            },
            Cast::SExt => match x {
                V::C(c) => V::C(crate::term::sext(c, fw) as u128 & mask(tw)),
                V::T(t) => {
                    let r = self.ts.sext(t, tw);
                    self.tv(r)
                }
                V::U => {
                    let t = self.fresh_undef(st, fw);
                    let r = self.ts.sext(t, tw);
                    self.tv(r)
                }
                V::A(_) => return Err(Stop::Give("cast".into())),
            },
        })
    }

    fn push_call(&mut self, st: &mut State, fid: u32, args: Vec<V>, ret: Option<u32>, inv: Option<(u32, u32)>, is_try: bool) -> R<()> {
        let f = self.prog.func(fid).map_err(Stop::Give)?;
        self.prog.funcs[fid as usize].executed = true;
        if st.threads[st.cur].frames.len() > 400 {
            return Err(Stop::Give("call depth".into()));
        }
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[i] = a;
            }
        }
        let fr = Frame { f, blk: 0, prev: u32::MAX, ip: 0, regs, allocas: vec![], ret, inv, is_try };
        st.threads[st.cur].frames.push(Rc::new(fr));
        Ok(())
    }

    fn call(&mut self, st: &mut Box<State>, d: Option<u32>, ret: &Ty, fo: &O, name: &str, args: &[(Ty, O)], inv: Option<(u32, u32)>) -> R<bool> {
        let fv = self.val(st, fo);
        let addr = self.concretize(st, &fv, 64, "call target")? as u64;
        if !(FUNC_BASE..GLOB_BASE).contains(&addr) || (addr - FUNC_BASE) % 16 != 0 {
            return self.ub(st, format!("call of non-function address {addr:#x}"));
        }
        let fid = ((addr - FUNC_BASE) / 16) as u32;
        if fid as usize >= self.prog.funcs.len() {
            return self.ub(st, format!("call of non-function address {addr:#x}"));
        }
        let av: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        let ext = match self.prog.funcs[fid as usize].ext {
            None => {
                self.push_call(st, fid, av, d, inv, false)?;
                return Ok(false);
            }
            Some(Ext::Undefined) => {
                // a definition may live in another module
                let n = self.prog.funcs[fid as usize].name.clone();
                if let Some(r) = self.prog.find(&n) {
                    if self.prog.funcs[r as usize].ext.is_none() {
                        self.push_call(st, r, av, d, inv, false)?;
                        return Ok(false);
                    }
                }
                return Err(Stop::Give(format!("call of unmodelled function {n}")));
            }
            Some(e) => e,
        };
        let _ = name;
        let w = ret.bits();
        let mut result: Option<V> = None;
        macro_rules! a {
            ($i:expr) => {
                av[$i].clone()
            };
        }
        match ext {
            Ext::Undefined => unreachable!(),
            Ext::Nop => {}
            Ext::Assume => match a!(0) {
                V::C(1) => {}
                V::C(_) => return self.ub(st, "assumption violated".into()),
                V::T(t) => {
                    if self.known(st, t) != Some(1) {
                        let n = self.ts.not(t);
                        if let Some(m) = self.feasible(st, n)? {
                            self.violation(st, "ub", 3, "assumption violated".into(), &m);
                            match self.feasible(st, t)? {
                                Some(m) => self.assume(st, t, m),
                                None => return Err(Stop::Violation),
                            }
                        }
                    }
                }
                _ => return self.ub(st, "assume on uninitialised value".into()),
            },
            Ext::LifetimeStart | Ext::LifetimeEnd => {
                if let Some(V::C(p)) = av.last() {
                    let p = *p as u64;
                    if let Some(k) = self.obj_index(st, p) {
                        if st.mem[k].0 == p && st.mem[k].1.kind == K_STACK {
                            let o = Rc::make_mut(&mut st.mem[k].1);
                            o.b.fill(0);
                        }
                    }
                }
            }
            Ext::Memcpy => {
                let n = self.concretize(st, &a!(2), 64, "copy length")? as u64;
                if n > 0 {
                    let dst = self.concretize(st, &a!(0), 64, "copy destination")? as u64;
                    let src = self.concretize(st, &a!(1), 64, "copy source")? as u64;
                    let (k, off) = self.access(st, src, n, false)?;
                    let bytes: Vec<u64> = st.mem[k].1.b[off..off + n as usize].to_vec();
                    let (k, off) = self.access(st, dst, n, true)?;
                    let o = Rc::make_mut(&mut st.mem[k].1);
                    o.b[off..off + n as usize].copy_from_slice(&bytes);
                }
                result = Some(a!(0));
            }
            Ext::Memset => {
                let n = self.concretize(st, &a!(2), 64, "set length")? as u64;
                if n > 0 {
                    let dst = self.concretize(st, &a!(0), 64, "set destination")? as u64;
                    let v = match a!(1) {
                        V::C(c) => B_CONC | (c as u64 & 0xff),
                        V::T(t) => {
                            let e = self.ts.extract(t, 0, 8);
                            match self.ts.as_const(e) {
                                Some(c) => B_CONC | c as u64,
                                None => B_SYM | ((e as u64) << 8),
                            }
                        }
                        _ => 0,
                    };
                    let (k, off) = self.access(st, dst, n, true)?;
                    let o = Rc::make_mut(&mut st.mem[k].1);
                    o.b[off..off + n as usize].fill(v);
                }
                result = Some(a!(0));
            }
            Ext::Memcmp => {
                let n = self.concretize(st, &a!(2), 64, "compare length")? as u64;
                let mut acc = self.ts.con(0, 32);
                if n > 0 {
                    let p = self.concretize(st, &a!(0), 64, "compare address")? as u64;
                    let q = self.concretize(st, &a!(1), 64, "compare address")? as u64;
                    for i in (0..n).rev() {
                        let (k, off) = self.access(st, p + i, 1, false)?;
                        let x = self.load(st, &Ty::I(8), k, off)?;
                        let (k, off) = self.access(st, q + i, 1, false)?;
                        let y = self.load(st, &Ty::I(8), k, off)?;
                        let x = self.term(st, &x, 8);
                        let y = self.term(st, &y, 8);
                        let e = self.ts.bin(Op::Eq, x, y);
                        let l = self.ts.bin(Op::Ult, x, y);
                        let m1 = self.ts.con(u32::MAX as u128, 32);
                        let p1 = self.ts.con(1, 32);
                        let ne = self.ts.ite(l, m1, p1);
                        acc = self.ts.ite(e, acc, ne);
                    }
                }
                result = Some(self.tv(acc));
            }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop | Ext::Bswap => {
                let x = a!(0);
                if let Ty::Vec(..) = ret {
                    return Err(Stop::Give("vector bit count".into()));
                }
                result = Some(match x {
                    V::C(c) => V::C(match ext {
                        Ext::Ctlz => {
                            if c == 0 {
                                w as u128
                            } else {
                                (c.leading_zeros() - (128 - w as u32)) as u128
                            }
                        }
                        Ext::Cttz => {
                            if c == 0 {
                                w as u128
                            } else {
                                c.trailing_zeros() as u128
                            }
                        }
                        Ext::Ctpop => c.count_ones() as u128,
                        _ => {
                            let n = w as usize / 8;
                            let mut r = 0u128;
                            for i in 0..n {
                                r |= ((c >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
                            }
                            r
                        }
                    }),
                    V::U => V::U,
                    x => {
                        let t = self.term(st, &x, w);
                        let r = match ext {
                            Ext::Ctlz | Ext::Cttz => {
                                let mut r = self.ts.con(w as u128, w);
                                for i in 0..w {
                                    // last assignment wins: scan from least significant position of interest
                                    let (bit, v) = if ext == Ext::Ctlz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                                    let e = self.ts.extract(t, bit, 1);
                                    let k = self.ts.con(v as u128, w);
                                    r = self.ts.ite(e, k, r);
                                }
                                r
                            }
                            Ext::Ctpop => {
                                let mut r = self.ts.con(0, w);
                                for i in 0..w {
                                    let e = self.ts.extract(t, i, 1);
                                    let z = self.ts.zext(e, w);
                                    r = self.ts.bin(Op::Add, r, z);
                                }
                                r
                            }
                            _ => {
                                let n = w / 8;
                                let mut acc = self.ts.extract(t, (n - 1) * 8, 8);
                                for i in (0..n - 1).rev() {
                                    let e = self.ts.extract(t, i * 8, 8);
                                    acc = self.ts.concat(e, acc);
                                }
                                acc
                            }
                        };
                        self.tv(r)
                    }
                });
            }
            Ext::Fshl | Ext::Fshr => {
                let x = self.term(st, &a!(0), w);
                let y = self.term(st, &a!(1), w);
                let s = self.concretize(st, &a!(2), w, "funnel shift amount")? % w as u128;
                let cc = if w <= 64 {
                    let c = self.ts.concat(x, y);
                    if ext == Ext::Fshl {
                        self.ts.extract(c, w - s as u16, w)
                    } else {
                        self.ts.extract(c, s as u16, w)
                    }
                } else {
                    return Err(Stop::Give("wide funnel shift".into()));
                };
                result = Some(self.tv(cc));
            }
            Ext::UAddSat | Ext::USubSat => {
                let (x, y) = (self.term(st, &a!(0), w), self.term(st, &a!(1), w));
                let r = if ext == Ext::UAddSat {
                    let s = self.ts.bin(Op::Add, x, y);
                    let o = self.ts.bin(Op::Ult, s, x);
                    let m = self.ts.con(mask(w), w);
                    self.ts.ite(o, m, s)
                } else {
                    let s = self.ts.bin(Op::Sub, x, y);
                    let o = self.ts.bin(Op::Ult, x, y);
                    let z = self.ts.con(0, w);
                    self.ts.ite(o, z, s)
                };
                result = Some(self.tv(r));
            }
            Ext::UMax | Ext::UMin | Ext::SMax | Ext::SMin => {
                let p = match ext {
                    Ext::UMax => Pred::Ugt,
                    Ext::UMin => Pred::Ult,
                    Ext::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                result = Some(self.vmap2(st, ret, &av[0], &av[1], &mut |s, st, w, a, b| Ok(s.minmax(st, p, w, a, b)))?);
            }
            Ext::Abs => {
                let x = self.term(st, &a!(0), w);
                let z = self.ts.con(0, w);
                let l = self.ts.bin(Op::Slt, x, z);
                let n = self.ts.bin(Op::Sub, z, x);
                let r = self.ts.ite(l, n, x);
                result = Some(self.tv(r));
            }
            Ext::UCmp | Ext::SCmp => {
                let aw = args[0].0.bits();
                let (x, y) = (self.term(st, &a!(0), aw), self.term(st, &a!(1), aw));
                let l = self.ts.bin(if ext == Ext::UCmp { Op::Ult } else { Op::Slt }, x, y);
                let e = self.ts.bin(Op::Eq, x, y);
                let (m1, z, p1) = (self.ts.con(mask(w), w), self.ts.con(0, w), self.ts.con(1, w));
                let q = self.ts.ite(e, z, p1);
                let r = self.ts.ite(l, m1, q);
                result = Some(self.tv(r));
            }
            Ext::UAddO | Ext::USubO | Ext::UMulO | Ext::SAddO | Ext::SSubO | Ext::SMulO => {
                let aw = args[0].0.bits();
                let (x, y) = (self.term(st, &a!(0), aw), self.term(st, &a!(1), aw));
                let op = match ext {
                    Ext::UAddO | Ext::SAddO => Op::Add,
                    Ext::USubO | Ext::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.ts.bin(op, x, y);
                let o = match ext {
                    Ext::UAddO => self.ts.bin(Op::Ult, r, x),
                    Ext::USubO => self.ts.bin(Op::Ult, x, y),
                    _ => {
                        if aw > 64 {
                            return Err(Stop::Give("wide overflow op".into()));
                        }
                        let signed = matches!(ext, Ext::SAddO | Ext::SSubO | Ext::SMulO);
                        let (xx, yy) = if signed {
                            (self.ts.sext(x, aw * 2), self.ts.sext(y, aw * 2))
                        } else {
                            (self.ts.zext(x, aw * 2), self.ts.zext(y, aw * 2))
                        };
                        let rr = self.ts.bin(op, xx, yy);
                        let back = if signed { self.ts.sext(r, aw * 2) } else { self.ts.zext(r, aw * 2) };
                        let e = self.ts.bin(Op::Eq, rr, back);
                        self.ts.not(e)
                    }
                };
                result = Some(V::A(Rc::new(vec![self.tv(r), self.tv(o)])));
            }
            Ext::Expect => result = Some(a!(0)),
            Ext::IsConstant => result = Some(V::C(0)),
            Ext::Alloc | Ext::AllocZeroed => {
                let size = self.concretize(st, &a!(0), 64, "allocation size")? as u64;
                let align = self.concretize(st, &a!(1), 64, "allocation alignment")? as u64;
                if size == 0 {
                    return self.ub(st, "zero-sized allocation".into());
                }
                if !align.is_power_of_two() {
                    return self.ub(st, "allocation alignment".into());
                }
                if size > (1 << 24) {
                    return Err(Stop::Give(format!("allocation of {size} bytes")));
                }
                let p = self.alloc(st, size, align, K_HEAP);
                if ext == Ext::AllocZeroed {
                    let k = st.mem.len() - 1;
                    Rc::make_mut(&mut st.mem[k].1).b.fill(B_CONC);
                }
                result = Some(V::C(p as u128));
            }
            Ext::Dealloc => {
                let p = self.concretize(st, &a!(0), 64, "deallocated address")? as u64;
                let size = self.concretize(st, &a!(1), 64, "deallocation size")? as u64;
                let align = self.concretize(st, &a!(2), 64, "deallocation alignment")? as u64;
                self.dealloc(st, p, size, align)?;
            }
            Ext::Realloc => {
                let p = self.concretize(st, &a!(0), 64, "reallocated address")? as u64;
                let size = self.concretize(st, &a!(1), 64, "old size")? as u64;
                let align = self.concretize(st, &a!(2), 64, "alignment")? as u64;
                let new = self.concretize(st, &a!(3), 64, "new size")? as u64;
                if new > (1 << 24) {
                    return Err(Stop::Give(format!("allocation of {new} bytes")));
                }
                if new == 0 {
                    return self.ub(st, "realloc to zero size".into());
                }
                let o = self.dealloc(st, p, size, align)?;
                let q = self.alloc(st, new, align, K_HEAP);
                let k = st.mem.len() - 1;
                let n = size.min(new) as usize;
                Rc::make_mut(&mut st.mem[k].1).b[..n].copy_from_slice(&o.b[..n]);
                result = Some(V::C(q as u128));
            }
            Ext::Panic => {
                let n = self.prog.funcs[fid as usize].name.clone();
                self.panic(st, &n, inv)?;
                return Ok(false);
            }
            Ext::SymPanic => {
                self.panic(st, "__sym_panic", inv)?;
                return Ok(false);
            }
            Ext::Abort => {
                let n = self.prog.funcs[fid as usize].name.clone();
                return self.ub(st, format!("abort: {n}"));
            }
            Ext::SymU => {
                let bits = match a!(0) {
                    V::C(c) => c as u16,
                    _ => return Err(Stop::Give("__sym_u width".into())),
                };
                let tag = match a!(1) {
                    V::C(c) => c as u32,
                    _ => 0,
                };
                let v = self.sym_input(st, bits, tag);
                result = Some(match v {
                    V::T(t) => {
                        let z = self.ts.zext(t, 64);
                        self.tv(z)
                    }
                    v => v,
                });
            }
            Ext::SymAssume => match a!(0) {
                V::C(1) => {}
                V::C(_) => return Err(Stop::Infeasible),
                V::T(t) => {
                    self.undef_check(st, t, "assumption")?;
                    match self.feasible(st, t)? {
                        Some(m) => self.assume(st, t, m),
                        None => return Err(Stop::Infeasible),
                    }
                }
                _ => return self.ub(st, "assume on uninitialised value".into()),
            },
            Ext::SymCheck => {
                self.stats.checks += 1;
                let id = match a!(1) {
                    V::C(c) => c as u32,
                    _ => 0,
                };
                match a!(0) {
                    V::C(1) => {}
                    V::C(_) => {
                        let m = st.model.clone();
                        self.violation(st, "check", id, format!("assertion {id} fails"), &m);
                        return Err(Stop::Violation);
                    }
                    V::T(t) => {
                        self.stats.checks_sym += 1;
                        if self.known(st, t) != Some(1) {
                            self.undef_check(st, t, "asserted value")?;
                            let n = self.ts.not(t);
                            if let Some(m) = self.feasible(st, n)? {
                                self.violation(st, "check", id, format!("assertion {id} fails"), &m);
                                match self.feasible(st, t)? {
                                    Some(m) => self.assume(st, t, m),
                                    None => return Err(Stop::Violation),
                                }
                            } else {
                                self.assume_implied(st, t, st.model.clone());
                            }
                        }
                    }
                    _ => return self.ub(st, format!("assertion {id} on uninitialised value")),
                }
            }
            Ext::SymReach => {
                if let V::C(c) = a!(0) {
                    *self.stats.reach.entry(c as u32).or_insert(0) += 1;
                }
            }
            Ext::SymTry => {
                let f = self.concretize(st, &a!(0), 64, "try target")? as u64;
                let fid = ((f - FUNC_BASE) / 16) as u32;
                self.push_call(st, fid, vec![a!(1)], d, inv, true)?;
                return Ok(false);
            }
            Ext::SymNote => st.notes.push(a!(0)),
            Ext::SymLive => result = Some(V::C(st.heap as u64 as u128)),
            Ext::SymParam => {
                let k = match a!(0) {
                    V::C(c) => c as u32,
                    _ => 0,
                };
                let dflt = match a!(1) {
                    V::C(c) => c as u64,
                    _ => 0,
                };
                result = Some(V::C(self.params.get(&k).copied().unwrap_or(dflt) as u128));
            }
            Ext::SymConc => {
                let v = self.concretize(st, &a!(0), 64, "value")?;
                result = Some(V::C(v));
            }
            Ext::SymSpawn => {
                let f = self.concretize(st, &a!(0), 64, "thread function")? as u64;
                let fid = ((f - FUNC_BASE) / 16) as u32;
                let data = a!(1);
                let cur = st.cur;
                st.threads.push(Thread { frames: vec![], joining: false });
                st.cur = st.threads.len() - 1;
                self.push_call(st, fid, vec![data], None, None, false)?;
                st.cur = cur;
            }
            Ext::SymJoin => {
                let alive = st.threads[1..].iter().any(|t| !t.frames.is_empty());
                if alive {
                    st.threads[0].joining = true;
                    self.schedule(st)?;
                    return Ok(false); // main re-executes the join when scheduled again
                }
                st.threads[0].joining = false;
                st.granted = false;
            }
        }
        if let (Some(d), Some(v)) = (d, result) {
            let fr = Rc::make_mut(st.threads[st.cur].frames.last_mut().unwrap());
            fr.regs[d as usize] = v;
        }
        self.after_call(st, inv)?;
        Ok(!self.stop_on_fork)
    }
}
