//! Parser for textual LLVM IR (rustc's bundled LLVM, opaque pointers).
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String), // bare word / number
    L(String), // %local
    G(String), // @global
    S(Vec<u8>), // c"..."
    P(char),
    M, // metadata start '!'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&b[st..j]).into_owned();
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                out.push(Tok::M);
                i += 1;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::W(s[st..j].to_string()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unescape(&b[st..j])));
                i = j + 1;
            }
            _ if is_id(c) => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub type R<X> = Result<X, String>;

pub trait Syms {
    /// Address of a global symbol (creating an external if unknown).
    fn addr(&mut self, module: usize, name: &str) -> u64;
}

pub struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
    pub module: usize,
    pub syms: &'a mut dyn Syms,
    pub types: &'a HashMap<String, Ty>,
}

impl<'a> Cur<'a> {
    pub fn new(t: &'a [Tok], module: usize, syms: &'a mut dyn Syms, types: &'a HashMap<String, Ty>) -> Self {
        Cur { t, i: 0, module, syms, types }
    }
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a Tok> {
        let t = self.t.get(self.i).ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{c}' at {:?}", self.t.get(self.i..(self.i + 6).min(self.t.len()))))
        }
    }
    fn word(&mut self) -> R<&'a str> {
        match self.next()? {
            Tok::W(s) => Ok(s),
            t => Err(format!("expected word, got {t:?}")),
        }
    }
    fn num(&mut self) -> R<i64> {
        let w = self.word()?;
        w.parse().map_err(|_| format!("expected number, got {w}"))
    }
    fn skip_parens(&mut self) -> R<()> {
        self.p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }

    pub fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::W(w) => {
                if let Some(n) = w.strip_prefix('i') {
                    if let Ok(n) = n.parse::<u16>() {
                        return Ok(Ty::I(n));
                    }
                }
                Ok(match w.as_str() {
                    "ptr" => Ty::P,
                    "void" => Ty::Void,
                    "float" => Ty::F(32),
                    "double" => Ty::F(64),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ => return Err(format!("unknown type {w}")),
                })
            }
            Tok::L(n) => self.types.get(n).cloned().ok_or(format!("unknown type %{n}")),
            Tok::P('[') => {
                let n = self.num()? as u64;
                self.word()?;
                let t = self.ty()?;
                self.p(']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            Tok::P('{') => {
                let v = self.ty_list('}')?;
                Ok(Ty::St(Rc::new(v), false))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.ty_list('}')?;
                    self.p('>')?;
                    Ok(Ty::St(Rc::new(v), true))
                } else {
                    let n = self.num()? as u32;
                    self.word()?;
                    let t = self.ty()?;
                    self.p('>')?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            t => Err(format!("bad type token {t:?}")),
        }
    }
    fn ty_list(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(close) {
                return Ok(v);
            }
            self.p(',')?;
        }
    }

    fn is_value_word(w: &str) -> bool {
        matches!(
            w,
            "null" | "true"
                | "false"
                | "undef"
                | "poison"
                | "zeroinitializer"
                | "inttoptr"
                | "ptrtoint"
                | "getelementptr"
                | "splat"
                | "none"
                | "bitcast"
                | "add"
                | "sub"
                | "trunc"
        ) || w.starts_with(|c: char| c.is_ascii_digit() || c == '-')
    }

    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) if !Self::is_value_word(w) => {
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }

    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                V::A(Rc::new((0..ty.nfields()).map(|i| Self::zero(&ty.field_ty(i))).collect()))
            }
            _ => V::C(0),
        }
    }

    /// Constant of type `ty` (not a local).
    pub fn constant(&mut self, ty: &Ty) -> R<V> {
        match self.next()? {
            Tok::G(n) => Ok(V::C(self.syms.addr(self.module, n) as u128)),
            Tok::S(b) => Ok(V::A(Rc::new(b.iter().map(|&x| V::C(x as u128)).collect()))),
            Tok::W(w) => match w.as_str() {
                "null" | "false" | "none" => Ok(V::C(0)),
                "true" => Ok(V::C(1)),
                "undef" | "poison" => Ok(V::U),
                "zeroinitializer" => Ok(Self::zero(ty)),
                "splat" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.p(')')?;
                    Ok(V::A(Rc::new(vec![v; ty.nfields() as usize])))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.word()?; // to
                    let t2 = self.ty()?;
                    self.p(')')?;
                    match v {
                        V::C(c) => Ok(V::C(c & crate::term::mask(t2.bits()))),
                        v => Ok(v),
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    // flags like inrange(...) may precede
                    if let Some(Tok::W(p)) = self.t.get(self.i - 1) {
                        if p == "inrange" {
                            self.skip_parens()?;
                        }
                    }
                    self.p('(')?;
                    let t = self.ty()?;
                    self.p(',')?;
                    let pt = self.ty()?;
                    let base = match self.constant(&pt)? {
                        V::C(c) => c,
                        _ => return Err("gep base".into()),
                    };
                    let mut off = 0i64;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let v = match self.constant(&it)? {
                            V::C(c) => crate::term::sext(c, it.bits()) as i64,
                            _ => return Err("gep index".into()),
                        };
                        if first {
                            off += v * t.size() as i64;
                            first = false;
                        } else {
                            let (ft, fo) = cur.field(v as u64);
                            off += fo as i64;
                            cur = ft;
                        }
                    }
                    self.p(')')?;
                    Ok(V::C((base as u64).wrapping_add(off as u64) as u128))
                }
                "add" | "sub" => {
                    let op = w.clone();
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.p('(')?;
                    let t = self.ty()?;
                    let a = self.constant(&t)?;
                    self.p(',')?;
                    let t2 = self.ty()?;
                    let b = self.constant(&t2)?;
                    self.p(')')?;
                    match (a, b) {
                        (V::C(a), V::C(b)) => {
                            let r = if op == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) };
                            Ok(V::C(r & crate::term::mask(t.bits())))
                        }
                        _ => Err("const expr".into()),
                    }
                }
                _ => {
                    let v: i128 = w.parse().map_err(|_| format!("bad constant {w}"))?;
                    Ok(V::C(v as u128 & crate::term::mask(ty.bits())))
                }
            },
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg('}')?;
                    self.p('>')?;
                    Ok(v)
                } else {
                    self.agg('>')
                }
            }
            t => Err(format!("bad constant token {t:?}")),
        }
    }
    fn agg(&mut self, close: char) -> R<V> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(V::A(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.constant(&t)?);
            if self.eat_p(close) {
                return Ok(V::A(Rc::new(v)));
            }
            self.p(',')?;
        }
    }
}

impl Ty {
    pub fn field_ty(&self, i: u64) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::St(f, _) => f[i as usize].clone(),
            _ => panic!(),
        }
    }
}

struct Names {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl Names {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
}

/// Split a module into logical lines: instruction continuations are joined.
pub fn logical_lines(body: &[&str]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in body {
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') {
            continue;
        }
        let indent = l.len() - t.len();
        if (indent >= 4 || t.starts_with(']')) && !out.is_empty() {
            let last = out.last_mut().unwrap();
            last.push(' ');
            // strip a trailing comment (none inside instructions)
            last.push_str(t);
        } else {
            out.push(l.to_string());
        }
    }
    out
}

pub fn parse_function(
    id: u32,
    header: &str,
    body: &[&str],
    module: usize,
    syms: &mut dyn Syms,
    types: &HashMap<String, Ty>,
) -> R<Func> {
    let mut names = Names { regs: HashMap::new(), blocks: HashMap::new() };
    let htoks = lex(header);
    let mut params = vec![];
    let mut unnamed = 0usize;
    {
        let mut c = Cur::new(&htoks, module, syms, types);
        while !matches!(c.peek(), Some(Tok::G(_))) {
            c.i += 1;
        }
        c.i += 1;
        c.p('(')?;
        if !c.eat_p(')') {
            loop {
                if c.is_p('.') {
                    return Err("varargs".into());
                }
                let t = c.ty()?;
                c.skip_attrs()?;
                match c.peek() {
                    Some(Tok::L(n)) => {
                        names.reg(n);
                        if n.parse::<usize>().is_ok() {
                            unnamed += 1;
                        }
                        c.i += 1;
                    }
                    _ => {
                        names.reg(&unnamed.to_string());
                        unnamed += 1;
                    }
                }
                params.push(t);
                if c.eat_p(')') {
                    break;
                }
                c.p(',')?;
            }
        }
    }
    let lines = logical_lines(body);
    // blocks
    let label_of = |l: &str| -> Option<String> {
        if l.starts_with(' ') {
            return None;
        }
        let b = l.as_bytes();
        if b[0] == b'"' {
            let e = l[1..].find('"')? + 1;
            if l[e + 1..].starts_with(':') {
                return Some(l[1..e].to_string());
            }
            return None;
        }
        let e = l.find(':')?;
        if l[..e].bytes().all(is_id) {
            Some(l[..e].to_string())
        } else {
            None
        }
    };
    let mut nb = 0u32;
    if let Some(l) = lines.first() {
        if label_of(l).is_none() {
            names.blocks.insert(unnamed.to_string(), 0);
            nb = 1;
        }
    }
    for l in &lines {
        if let Some(n) = label_of(l) {
            names.blocks.insert(n, nb);
            nb += 1;
        }
    }
    let mut blocks: Vec<Block> = vec![];
    if let Some(l) = lines.first() {
        if label_of(l).is_none() {
            blocks.push(Block::default());
        }
    }
    let mut count = 0;
    for l in &lines {
        if label_of(l).is_some() {
            blocks.push(Block::default());
            continue;
        }
        let toks = lex(l);
        if toks.is_empty() {
            continue;
        }
        let mut c = Cur::new(&toks, module, syms, types);
        let b = blocks.last_mut().unwrap();
        parse_instr(&mut c, &mut names, b).map_err(|e| format!("{e} in: {}", l.trim()))?;
        count += 1;
    }
    let nregs = names.regs.len() as u32;
    Ok(Func { id, params, blocks, nregs, count })
}

fn operand(c: &mut Cur, n: &mut Names, ty: &Ty) -> R<O> {
    if let Some(Tok::L(x)) = c.peek() {
        c.i += 1;
        return Ok(O::R(n.reg(x)));
    }
    Ok(O::C(c.constant(ty)?))
}

fn label(c: &mut Cur, n: &mut Names) -> R<u32> {
    if !c.eat_w("label") {
        return Err("expected label".into());
    }
    match c.next()? {
        Tok::L(x) => n.blocks.get(x).copied().ok_or(format!("no block {x}")),
        t => Err(format!("bad label {t:?}")),
    }
}

fn align_tail(c: &mut Cur, default: u64) -> R<u64> {
    // [syncscope("..")] [ordering] , align N
    let mut a = default;
    while let Some(t) = c.peek() {
        match t {
            Tok::M => break,
            Tok::W(w) if w == "align" => {
                c.i += 1;
                a = c.num()? as u64;
            }
            _ => c.i += 1,
        }
    }
    Ok(a)
}

fn parse_instr(c: &mut Cur, n: &mut Names, blk: &mut Block) -> R<()> {
    let mut d: Option<u32> = None;
    if let Some(Tok::L(x)) = c.peek() {
        d = Some(n.reg(x));
        c.i += 1;
        c.p('=')?;
    }
    let w = c.word()?;
    let dst = d.unwrap_or(u32::MAX);
    let bin = match w {
        "add" => Some(Bin::Add),
        "sub" => Some(Bin::Sub),
        "mul" => Some(Bin::Mul),
        "udiv" => Some(Bin::UDiv),
        "sdiv" => Some(Bin::SDiv),
        "urem" => Some(Bin::URem),
        "srem" => Some(Bin::SRem),
        "shl" => Some(Bin::Shl),
        "lshr" => Some(Bin::LShr),
        "ashr" => Some(Bin::AShr),
        "and" => Some(Bin::And),
        "or" => Some(Bin::Or),
        "xor" => Some(Bin::Xor),
        _ => None,
    };
    if let Some(op) = bin {
        while c.is_w("nuw") || c.is_w("nsw") || c.is_w("exact") || c.is_w("disjoint") {
            c.i += 1;
        }
        let ty = c.ty()?;
        let a = operand(c, n, &ty)?;
        c.p(',')?;
        let b = operand(c, n, &ty)?;
        blk.ins.push(I::Bin { op, ty, d: dst, a, b });
        return Ok(());
    }
    let cast = match w {
        "trunc" => Some(Cast::Trunc),
        "zext" => Some(Cast::ZExt),
        "sext" => Some(Cast::SExt),
        "bitcast" => Some(Cast::Bit),
        "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
        "inttoptr" => Some(Cast::IntToPtr),
        _ => None,
    };
    if let Some(k) = cast {
        while c.is_w("nuw") || c.is_w("nsw") || c.is_w("nneg") {
            c.i += 1;
        }
        let from = c.ty()?;
        let a = operand(c, n, &from)?;
        if c.word()? != "to" {
            return Err("expected to".into());
        }
        let to = c.ty()?;
        blk.ins.push(I::Cast { k, from, to, d: dst, a });
        return Ok(());
    }
    match w {
        "icmp" => {
            if c.is_w("samesign") {
                c.i += 1;
            }
            let p = match c.word()? {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                x => return Err(format!("icmp {x}")),
            };
            let ty = c.ty()?;
            let a = operand(c, n, &ty)?;
            c.p(',')?;
            let b = operand(c, n, &ty)?;
            blk.ins.push(I::ICmp { p, ty, d: dst, a, b });
        }
        "load" => {
            let mut atomic = false;
            while c.is_w("atomic") || c.is_w("volatile") {
                atomic |= c.is_w("atomic");
                c.i += 1;
            }
            let ty = c.ty()?;
            c.p(',')?;
            let pt = c.ty()?;
            let p = operand(c, n, &pt)?;
            let align = align_tail(c, ty.align())?;
            blk.ins.push(I::Load { ty, d: dst, p, align, atomic });
        }
        "store" => {
            let mut atomic = false;
            while c.is_w("atomic") || c.is_w("volatile") {
                atomic |= c.is_w("atomic");
                c.i += 1;
            }
            let ty = c.ty()?;
            let v = operand(c, n, &ty)?;
            c.p(',')?;
            let pt = c.ty()?;
            let p = operand(c, n, &pt)?;
            let align = align_tail(c, ty.align())?;
            blk.ins.push(I::Store { ty, v, p, align, atomic });
        }
        "getelementptr" => {
            while c.is_w("inbounds") || c.is_w("nuw") || c.is_w("nusw") || c.is_w("inrange") {
                c.i += 1;
            }
            let t = c.ty()?;
            c.p(',')?;
            let pt = c.ty()?;
            let base = operand(c, n, &pt)?;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while c.eat_p(',') {
                if matches!(c.peek(), Some(Tok::M)) {
                    break;
                }
                let it = c.ty()?;
                let o = operand(c, n, &it)?;
                let scale;
                if first {
                    scale = t.size() as i64;
                    first = false;
                } else {
                    match (&cur, &o) {
                        (Ty::St(..), O::C(V::C(k))) => {
                            let (ft, fo) = cur.field(*k as u64);
                            off += fo as i64;
                            cur = ft;
                            continue;
                        }
                        (Ty::Arr(_, e), _) => {
                            let e = (**e).clone();
                            scale = e.size() as i64;
                            cur = e;
                        }
                        _ => return Err("gep shape".into()),
                    }
                }
                match o {
                    O::C(V::C(k)) => off += crate::term::sext(k, it.bits()) as i64 * scale,
                    o => idx.push((o, it.bits(), scale)),
                }
            }
            blk.ins.push(I::Gep { d: dst, base, off, idx });
        }
        "select" => {
            let ct = c.ty()?;
            let cc = operand(c, n, &ct)?;
            c.p(',')?;
            let ty = c.ty()?;
            let a = operand(c, n, &ty)?;
            c.p(',')?;
            let t2 = c.ty()?;
            let b = operand(c, n, &t2)?;
            blk.ins.push(I::Select { ty, d: dst, c: cc, a, b, vec: matches!(ct, Ty::Vec(..)) });
        }
        "freeze" => {
            let ty = c.ty()?;
            let a = operand(c, n, &ty)?;
            blk.ins.push(I::Freeze { ty, d: dst, a });
        }
        "phi" => {
            let ty = c.ty()?;
            let mut ins = vec![];
            loop {
                c.p('[')?;
                let o = operand(c, n, &ty)?;
                c.p(',')?;
                let b = match c.next()? {
                    Tok::L(x) => *n.blocks.get(x).ok_or(format!("no block {x}"))?,
                    t => return Err(format!("phi {t:?}")),
                };
                c.p(']')?;
                ins.push((b, o));
                if !c.eat_p(',') || !c.is_p('[') {
                    break;
                }
            }
            blk.phis.push(Phi { d: dst, ins });
        }
        "br" => {
            if c.is_w("label") {
                let b = label(c, n)?;
                blk.ins.push(I::Br(b));
            } else {
                let t = c.ty()?;
                let o = operand(c, n, &t)?;
                c.p(',')?;
                let a = label(c, n)?;
                c.p(',')?;
                let b = label(c, n)?;
                blk.ins.push(I::CondBr(o, a, b));
            }
        }
        "switch" => {
            let t = c.ty()?;
            let v = operand(c, n, &t)?;
            c.p(',')?;
            let def = label(c, n)?;
            c.p('[')?;
            let mut cases = vec![];
            while !c.eat_p(']') {
                let t2 = c.ty()?;
                let k = match c.constant(&t2)? {
                    V::C(k) => k,
                    _ => return Err("case".into()),
                };
                c.p(',')?;
                cases.push((k, label(c, n)?));
            }
            blk.ins.push(I::Switch { w: t.bits(), v, def, cases });
        }
        "ret" => {
            let t = c.ty()?;
            if t == Ty::Void {
                blk.ins.push(I::Ret(None));
            } else {
                let o = operand(c, n, &t)?;
                blk.ins.push(I::Ret(Some((t, o))));
            }
        }
        "unreachable" => blk.ins.push(I::Unreachable),
        "resume" => blk.ins.push(I::Resume),
        "landingpad" => blk.ins.push(I::LandingPad { d: dst }),
        "extractvalue" => {
            let t = c.ty()?;
            let a = operand(c, n, &t)?;
            let mut path = vec![];
            while c.eat_p(',') {
                if matches!(c.peek(), Some(Tok::M)) {
                    break;
                }
                path.push(c.num()? as u32);
            }
            blk.ins.push(I::ExtractValue { d: dst, a, path });
        }
        "insertvalue" => {
            let ty = c.ty()?;
            let a = operand(c, n, &ty)?;
            c.p(',')?;
            let t2 = c.ty()?;
            let v = operand(c, n, &t2)?;
            let mut path = vec![];
            while c.eat_p(',') {
                if matches!(c.peek(), Some(Tok::M)) {
                    break;
                }
                path.push(c.num()? as u32);
            }
            blk.ins.push(I::InsertValue { d: dst, ty, a, v, path });
        }
        "extractelement" => {
            let ty = c.ty()?;
            let a = operand(c, n, &ty)?;
            c.p(',')?;
            let t2 = c.ty()?;
            let i = operand(c, n, &t2)?;
            blk.ins.push(I::ExtractElt { d: dst, a, i, ty });
        }
        "insertelement" => {
            let ty = c.ty()?;
            let a = operand(c, n, &ty)?;
            c.p(',')?;
            let t2 = c.ty()?;
            let v = operand(c, n, &t2)?;
            c.p(',')?;
            let t3 = c.ty()?;
            let i = operand(c, n, &t3)?;
            blk.ins.push(I::InsertElt { d: dst, a, v, i, ty });
        }
        "shufflevector" => {
            let t1 = c.ty()?;
            let a = operand(c, n, &t1)?;
            c.p(',')?;
            let t2 = c.ty()?;
            let b = operand(c, n, &t2)?;
            c.p(',')?;
            let mt = c.ty()?;
            let m = match c.constant(&mt)? {
                V::A(v) => v
                    .iter()
                    .map(|x| match x {
                        V::C(k) => *k as i32,
                        _ => -1,
                    })
                    .collect(),
                V::U => vec![-1; mt.nfields() as usize],
                _ => return Err("mask".into()),
            };
            blk.ins.push(I::Shuffle { d: dst, a, b, n: t1.nfields() as u32, m });
        }
        "cmpxchg" => {
            let mut weak = false;
            while c.is_w("weak") || c.is_w("volatile") {
                weak |= c.is_w("weak");
                c.i += 1;
            }
            let pt = c.ty()?;
            let p = operand(c, n, &pt)?;
            c.p(',')?;
            let ty = c.ty()?;
            let cmp = operand(c, n, &ty)?;
            c.p(',')?;
            let t2 = c.ty()?;
            let new = operand(c, n, &t2)?;
            let align = align_tail(c, ty.size())?;
            blk.ins.push(I::CmpXchg { d: dst, ty, p, c: cmp, n: new, weak, align });
        }
        "atomicrmw" => {
            if c.is_w("volatile") {
                c.i += 1;
            }
            let op = match c.word()? {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "nand" => Rmw::Nand,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                "max" => Rmw::Max,
                "min" => Rmw::Min,
                "umax" => Rmw::UMax,
                "umin" => Rmw::UMin,
                x => return Err(format!("atomicrmw {x}")),
            };
            let pt = c.ty()?;
            let p = operand(c, n, &pt)?;
            c.p(',')?;
            let ty = c.ty()?;
            let v = operand(c, n, &ty)?;
            let align = align_tail(c, ty.size())?;
            blk.ins.push(I::Rmw { d: dst, op, ty, p, v, align });
        }
        "alloca" => {
            let ty = c.ty()?;
            let mut cnt = 1;
            let mut align = ty.align();
            while c.eat_p(',') {
                if c.eat_w("align") {
                    align = c.num()? as u64;
                } else if matches!(c.peek(), Some(Tok::M)) {
                    break;
                } else {
                    let t = c.ty()?;
                    match c.constant(&t)? {
                        V::C(k) => cnt = k as u64,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            blk.ins.push(I::Alloca { d: dst, size: ty.size() * cnt, align });
        }
        "fence" => blk.ins.push(I::Fence),
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let mut inv = w == "invoke";
            if w != "call" && w != "invoke" {
                let x = c.word()?;
                inv = x == "invoke";
            }
            // calling convention and return attributes
            loop {
                match c.peek() {
                    Some(Tok::W(x)) => {
                        let is_ty = x == "void"
                            || x == "ptr"
                            || x == "float"
                            || x == "double"
                            || (x.starts_with('i') && x[1..].parse::<u16>().is_ok());
                        if is_ty {
                            break;
                        }
                        let al = x == "align";
                        c.i += 1;
                        if c.is_p('(') {
                            c.skip_parens()?;
                        } else if al {
                            c.i += 1;
                        }
                    }
                    _ => break,
                }
            }
            let ret = c.ty()?;
            if c.is_p('(') {
                c.skip_parens()?; // function type
            }
            let (f, name): (O, Rc<str>) = match c.next()? {
                Tok::G(x) => (O::C(V::C(c.syms.addr(c.module, x) as u128)), x.as_str().into()),
                Tok::L(x) => (O::R(n.reg(x)), "".into()),
                Tok::W(x) if x == "asm" => {
                    // rustc's black_box / compiler fences: treated as no-op when void
                    (O::C(V::C(0)), "asm".into())
                }
                t => return Err(format!("callee {t:?}")),
            };
            if &*name == "asm" {
                if ret != Ty::Void {
                    return Err("inline asm with result".into());
                }
                blk.ins.push(I::Fence);
                return Ok(());
            }
            c.p('(')?;
            let mut args = vec![];
            if !c.eat_p(')') {
                loop {
                    let t = c.ty()?;
                    if t == Ty::Other {
                        // metadata argument
                        let mut dep = 0;
                        loop {
                            match c.peek() {
                                Some(Tok::P('(')) => dep += 1,
                                Some(Tok::P(')')) if dep == 0 => break,
                                Some(Tok::P(')')) => dep -= 1,
                                Some(Tok::P(',')) if dep == 0 => break,
                                None => return Err("metadata arg".into()),
                                _ => {}
                            }
                            c.i += 1;
                        }
                        args.push((t, O::C(V::U)));
                    } else {
                        c.skip_attrs()?;
                        let o = operand(c, n, &t)?;
                        args.push((t, o));
                    }
                    if c.eat_p(')') {
                        break;
                    }
                    c.p(',')?;
                }
            }
            let mut edges = None;
            if inv {
                while !c.is_w("to") {
                    c.i += 1;
                    if c.i >= c.t.len() {
                        return Err("invoke without to".into());
                    }
                }
                c.i += 1;
                let a = label(c, n)?;
                if c.word()? != "unwind" {
                    return Err("expected unwind".into());
                }
                let b = label(c, n)?;
                edges = Some((a, b));
            }
            blk.ins.push(I::Call { d, ret, f, name, args, inv: edges });
        }
        x => return Err(format!("instruction {x}")),
    }
    Ok(())
}
