//! Loads and links the .ll files of one build.
use crate::ir::*;
use crate::parse::{lex, parse_function, Cur, Syms, Tok};
use std::collections::HashMap;
use std::rc::Rc;

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000;
pub const MEM_BASE: u64 = 0x1_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    Undefined,
    Nop,
    Assume,
    LifetimeStart,
    LifetimeEnd,
    Memcpy,
    Memset,
    Memcmp,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Fshl,
    Fshr,
    UAddSat,
    USubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    UCmp,
    SCmp,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Expect,
    IsConstant,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Panic,
    Abort,
    SymU,
    SymAssume,
    SymCheck,
    SymReach,
    SymTry,
    SymNote,
    SymLive,
    SymParam,
    SymSpawn,
    SymJoin,
    SymPanic,
    SymConc,
}

fn classify(n: &str) -> Ext {
    if let Some(i) = n.strip_prefix("llvm.") {
        let p = |s: &str| i.starts_with(s);
        return if p("assume") {
            Ext::Assume
        } else if p("lifetime.start") {
            Ext::LifetimeStart
        } else if p("lifetime.end") {
            Ext::LifetimeEnd
        } else if p("memcpy") || p("memmove") {
            Ext::Memcpy
        } else if p("memset") {
            Ext::Memset
        } else if p("ctlz") {
            Ext::Ctlz
        } else if p("cttz") {
            Ext::Cttz
        } else if p("ctpop") {
            Ext::Ctpop
        } else if p("bswap") {
            Ext::Bswap
        } else if p("fshl") {
            Ext::Fshl
        } else if p("fshr") {
            Ext::Fshr
        } else if p("uadd.sat") {
            Ext::UAddSat
        } else if p("usub.sat") {
            Ext::USubSat
        } else if p("umax") {
            Ext::UMax
        } else if p("umin") {
            Ext::UMin
        } else if p("smax") {
            Ext::SMax
        } else if p("smin") {
            Ext::SMin
        } else if p("abs") {
            Ext::Abs
        } else if p("ucmp") {
            Ext::UCmp
        } else if p("scmp") {
            Ext::SCmp
        } else if p("uadd.with") {
            Ext::UAddO
        } else if p("usub.with") {
            Ext::USubO
        } else if p("umul.with") {
            Ext::UMulO
        } else if p("sadd.with") {
            Ext::SAddO
        } else if p("ssub.with") {
            Ext::SSubO
        } else if p("smul.with") {
            Ext::SMulO
        } else if p("expect") {
            Ext::Expect
        } else if p("is.constant") {
            Ext::IsConstant
        } else if p("trap") || p("ubsantrap") {
            Ext::Abort
        } else if p("experimental.noalias") || p("dbg") || p("donothing") || p("prefetch") || p("invariant.") {
            Ext::Nop
        } else {
            Ext::Undefined
        };
    }
    match n {
        "__sym_u" => return Ext::SymU,
        "__sym_assume" => return Ext::SymAssume,
        "__sym_check" => return Ext::SymCheck,
        "__sym_reach" => return Ext::SymReach,
        "__sym_try" => return Ext::SymTry,
        "__sym_note" => return Ext::SymNote,
        "__sym_live" => return Ext::SymLive,
        "__sym_param" => return Ext::SymParam,
        "__sym_spawn" => return Ext::SymSpawn,
        "__sym_join_all" => return Ext::SymJoin,
        "__sym_panic" => return Ext::SymPanic,
        "__sym_conc" => return Ext::SymConc,
        "memcpy" | "memmove" => return Ext::Memcpy,
        "memset" => return Ext::Memset,
        "memcmp" | "bcmp" => return Ext::Memcmp,
        "abort" => return Ext::Abort,
        _ => {}
    }
    let has = |s: &str| n.contains(s);
    if has("no_alloc_shim") {
        Ext::Nop
    } else if has("___rust_dealloc") {
        Ext::Dealloc
    } else if has("___rust_realloc") {
        Ext::Realloc
    } else if has("___rust_alloc_zeroed") {
        Ext::AllocZeroed
    } else if has("___rust_alloc") {
        Ext::Alloc
    } else if has("panic_nounwind")
        || has("panic_cannot_unwind")
        || has("panic_in_cleanup")
        || has("handle_alloc_error")
        || has("panic_null_pointer_dereference")
        || has("panic_misaligned_pointer_dereference")
        || has("panic_invalid_enum_construction")
        || has("7process5abort")
    {
        Ext::Abort
    } else if has("9panicking")
        || has("unwrap_failed")
        || has("expect_failed")
        || has("slice_index_fail")
        || has("slice_start_index")
        || has("slice_end_index")
        || has("slice_index_order")
        || has("handle_error")
        || has("capacity_overflow")
        || has("assert_failed")
        || has("panic_on_ord_violation")
        || has("len_mismatch_fail")
        || has("split_at_failed")
        || has("4cell22panic_already")
        || has("panic_already")
        || has("8panicking")
        || has("begin_panic")
        || has("resume_unwind")
    {
        Ext::Panic
    } else {
        Ext::Undefined
    }
}

pub struct FuncInfo {
    pub name: String,
    pub module: usize,
    pub header: usize,
    pub body: (usize, usize),
    pub ext: Option<Ext>,
    pub parsed: Option<Rc<Func>>,
    pub executed: bool,
}

pub struct GlobInfo {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub module: usize,
    pub line: usize,
    pub obj: Option<Rc<Obj>>,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: u8,
    pub b: Vec<u64>,
}
pub const K_CONST: u8 = 0;
pub const K_GLOBAL: u8 = 1;
pub const K_STACK: u8 = 2;
pub const K_HEAP: u8 = 3;

pub const B_CONC: u64 = 1 << 62;
pub const B_SYM: u64 = 2 << 62;
pub const B_KIND: u64 = 3 << 62;

#[derive(Clone, Copy)]
enum Sym {
    F(u32),
    G(u32),
}

pub struct Module {
    pub lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    local: HashMap<String, Sym>,
}

pub struct Program {
    pub mods: Vec<Module>,
    pub funcs: Vec<FuncInfo>,
    pub globs: Vec<GlobInfo>,
    gmap: HashMap<String, Sym>,
}

struct SymView<'a> {
    locals: Vec<&'a HashMap<String, Sym>>,
    gmap: &'a mut HashMap<String, Sym>,
    funcs: &'a mut Vec<FuncInfo>,
    globs: &'a [u64],
}

impl<'a> Syms for SymView<'a> {
    fn addr(&mut self, module: usize, name: &str) -> u64 {
        let s = self.locals[module].get(name).or_else(|| self.gmap.get(name)).copied();
        match s {
            Some(Sym::F(f)) => FUNC_BASE + 16 * f as u64,
            Some(Sym::G(g)) => self.globs[g as usize],
            None => {
                let id = self.funcs.len() as u32;
                self.funcs.push(FuncInfo {
                    name: name.to_string(),
                    module: usize::MAX,
                    header: 0,
                    body: (0, 0),
                    ext: Some(classify(name)),
                    parsed: None,
                    executed: false,
                });
                self.gmap.insert(name.to_string(), Sym::F(id));
                FUNC_BASE + 16 * id as u64
            }
        }
    }
}

impl Program {
    pub fn load(files: &[String]) -> Result<Program, String> {
        let mut p = Program { mods: vec![], funcs: vec![], globs: vec![], gmap: HashMap::new() };
        let mut next = GLOB_BASE;
        for (mi, f) in files.iter().enumerate() {
            let text = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
            let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            let mut types = HashMap::new();
            // named types first
            for l in &lines {
                if l.starts_with('%') && l.contains(" = type ") {
                    let toks = lex(l);
                    if let Tok::L(n) = &toks[0] {
                        let mut fake = NoSyms;
                        let mut c = Cur::new(&toks[3..], mi, &mut fake, &types);
                        if let Ok(t) = c.ty() {
                            let n = n.clone();
                            types.insert(n, t);
                        }
                    }
                }
            }
            let mut local = HashMap::new();
            let mut i = 0;
            while i < lines.len() {
                let l = &lines[i];
                if l.starts_with('@') {
                    let toks = lex(l);
                    let name = match &toks[0] {
                        Tok::G(n) => n.clone(),
                        _ => return Err(format!("global line {l}")),
                    };
                    let mut k = 2;
                    let mut constant = false;
                    let mut found = false;
                    let mut external = false;
                    while k < toks.len() {
                        if let Tok::W(w) = &toks[k] {
                            if w == "constant" || w == "global" {
                                constant = w == "constant";
                                found = true;
                                k += 1;
                                break;
                            }
                            if w == "external" {
                                external = true;
                            }
                            if w == "alias" {
                                break;
                            }
                        }
                        k += 1;
                    }
                    if found {
                        let mut fake = NoSyms;
                        let ty = {
                            let mut c = Cur::new(&toks[k..], mi, &mut fake, &types);
                            c.ty().map_err(|e| format!("{e}: {l}"))?
                        };
                        let mut align = ty.align().max(1);
                        for w in toks.windows(2) {
                            if let (Tok::W(a), Tok::W(n)) = (&w[0], &w[1]) {
                                if a == "align" {
                                    if let Ok(n) = n.parse::<u64>() {
                                        align = n;
                                    }
                                }
                            }
                        }
                        let size = ty.size();
                        next = (next + 16 + align - 1) / align * align;
                        let gid = p.globs.len() as u32;
                        p.globs.push(GlobInfo {
                            name: name.clone(),
                            addr: next,
                            size: if external { 0 } else { size },
                            align,
                            constant,
                            module: mi,
                            line: i,
                            obj: None,
                        });
                        next += size.max(1);
                        local.insert(name.clone(), Sym::G(gid));
                        let internal = toks.iter().any(|t| matches!(t, Tok::W(w) if w=="private"||w=="internal"));
                        if !internal && !external {
                            p.gmap.entry(name).or_insert(Sym::G(gid));
                        } else if external {
                            local.remove(&name);
                        }
                    }
                } else if l.starts_with("define ") {
                    let at = l.find('@').ok_or("define without name")?;
                    let toks = lex(&l[at..at + l[at..].find('(').unwrap_or(l.len() - at)]);
                    let name = match &toks[0] {
                        Tok::G(n) => n.clone(),
                        _ => return Err(format!("define {l}")),
                    };
                    let st = i + 1;
                    let mut e = st;
                    while lines[e] != "}" {
                        e += 1;
                    }
                    let id = p.funcs.len() as u32;
                    p.funcs.push(FuncInfo {
                        name: name.clone(),
                        module: mi,
                        header: i,
                        body: (st, e),
                        ext: None,
                        parsed: None,
                        executed: false,
                    });
                    local.insert(name.clone(), Sym::F(id));
                    let internal = l.starts_with("define internal") || l.starts_with("define private");
                    if !internal {
                        // prefer real definitions over externals created earlier
                        p.gmap.entry(name).or_insert(Sym::F(id));
                    }
                    i = e;
                }
                i += 1;
            }
            p.mods.push(Module { lines, types, local });
        }
        Ok(p)
    }

    pub fn find(&self, name: &str) -> Option<u32> {
        match self.gmap.get(name) {
            Some(Sym::F(f)) => Some(*f),
            _ => None,
        }
    }

    pub fn func(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return Ok(f.clone());
        }
        let fi = &self.funcs[id as usize];
        let (m, h, b) = (fi.module, fi.header, fi.body);
        let gl: Vec<u64> = self.globs.iter().map(|g| g.addr).collect();
        let mods = &self.mods;
        let mut sv = SymView {
            locals: mods.iter().map(|m| &m.local).collect(),
            gmap: &mut self.gmap,
            funcs: &mut self.funcs,
            globs: &gl,
        };
        let body: Vec<&str> = mods[m].lines[b.0..b.1].iter().map(|s| s.as_str()).collect();
        let f = parse_function(id, &mods[m].lines[h], &body, m, &mut sv, &mods[m].types)?;
        let f = Rc::new(f);
        self.funcs[id as usize].parsed = Some(f.clone());
        Ok(f)
    }

    /// Object of the global containing `addr`.
    pub fn glob_obj(&mut self, addr: u64) -> Option<(u64, Rc<Obj>)> {
        let k = self.globs.partition_point(|g| g.addr <= addr);
        if k == 0 {
            return None;
        }
        let g = &self.globs[k - 1];
        if addr > g.addr + g.size {
            return None;
        }
        if let Some(o) = &g.obj {
            return Some((g.addr, o.clone()));
        }
        let (mi, line, base, size, align, constant) = (g.module, g.line, g.addr, g.size, g.align, g.constant);
        let toks = lex(&self.mods[mi].lines[line]);
        let mut k2 = 2;
        while !matches!(&toks[k2], Tok::W(w) if w=="constant"||w=="global") {
            k2 += 1;
        }
        let gl: Vec<u64> = self.globs.iter().map(|g| g.addr).collect();
        let mods = &self.mods;
        let (ty, v) = {
            let mut sv = SymView {
                locals: mods.iter().map(|m| &m.local).collect(),
                gmap: &mut self.gmap,
                funcs: &mut self.funcs,
                globs: &gl,
            };
            let mut c = Cur::new(&toks[k2 + 1..], mi, &mut sv, &mods[mi].types);
            let ty = c.ty().ok()?;
            let v = c.constant(&ty).ok()?;
            (ty, v)
        };
        let mut b = vec![0u64; size as usize];
        fill(&mut b, 0, &ty, &v);
        let o = Rc::new(Obj { size, align, kind: if constant { K_CONST } else { K_GLOBAL }, b });
        self.globs[k - 1].obj = Some(o.clone());
        Some((base, o))
    }
}

fn fill(b: &mut [u64], off: usize, ty: &Ty, v: &V) {
    match v {
        V::C(c) => {
            for i in 0..ty.store_size() as usize {
                b[off + i] = B_CONC | ((c >> (8 * i)) as u64 & 0xff);
            }
        }
        V::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let (ft, fo) = ty.field(i as u64);
                fill(b, off + fo as usize, &ft, x);
            }
        }
        _ => {}
    }
}

struct NoSyms;
impl Syms for NoSyms {
    fn addr(&mut self, _m: usize, _n: &str) -> u64 {
        0
    }
}
