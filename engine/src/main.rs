//! symx: bounded symbolic execution of LLVM IR (rustc output) with Z3.
mod exec;
mod ir;
mod parse;
mod prog;
mod smt;
mod term;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Total {
    n: BTreeMap<String, f64>,
    reach: BTreeMap<u32, u64>,
    gave: BTreeMap<String, u64>,
    funcs: BTreeSet<String>,
    viol: Vec<String>,
    wit: Vec<String>,
}

fn inputs_str(v: &[(u32, u16, u128)]) -> String {
    v.iter().map(|(t, b, x)| format!("{t}:{b}:{x}")).collect::<Vec<_>>().join(",")
}

fn dump(e: &Engine, w: &mut dyn Write) {
    let s = &e.stats;
    for (k, v) in [
        ("paths", s.paths as f64),
        ("infeasible", s.infeasible as f64),
        ("forks", s.forks as f64),
        ("steps", s.steps as f64),
        ("checks", s.checks as f64),
        ("checks_symbolic", s.checks_sym as f64),
        ("memory_checks", s.ub_checks as f64),
        ("cache_hits", s.cache_hits as f64),
        ("queries", e.smt.queries as f64),
        ("sat", e.smt.sat as f64),
        ("unsat", e.smt.unsat as f64),
        ("unknown", e.smt.unknown as f64),
        ("solver_s", e.smt.time),
    ] {
        writeln!(w, "N\t{k}\t{v}").unwrap();
    }
    writeln!(w, "M\tmax_depth\t{}", s.max_depth).unwrap();
    for (k, v) in &s.reach {
        writeln!(w, "R\t{k}\t{v}").unwrap();
    }
    for (k, v) in &s.gave_up {
        writeln!(w, "G\t{k}\t{v}").unwrap();
    }
    for f in &e.prog.funcs {
        if f.executed {
            writeln!(w, "F\t{}", f.name).unwrap();
        }
    }
    for v in &e.violations {
        writeln!(
            w,
            "V\t{}\t{}\t{}\t{}\t{}",
            v.kind,
            v.id,
            v.msg.replace(['\t', '\n'], " "),
            v.stack.join(" "),
            inputs_str(&v.inputs)
        )
        .unwrap();
    }
    for x in &e.witnesses {
        let n: Vec<String> = x.notes.iter().map(|n| n.to_string()).collect();
        writeln!(w, "W\t{}\t{}", inputs_str(&x.inputs), n.join(",")).unwrap();
    }
}

fn merge(t: &mut Total, text: &str) {
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "N" => *t.n.entry(p[1].into()).or_insert(0.0) += p[2].parse::<f64>().unwrap(),
            "M" => {
                let e = t.n.entry(p[1].into()).or_insert(0.0);
                *e = e.max(p[2].parse().unwrap());
            }
            "R" => *t.reach.entry(p[1].parse().unwrap()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "G" => *t.gave.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "F" => {
                t.funcs.insert(p[1].into());
            }
            "V" => t.viol.push(l.into()),
            "W" => t.wit.push(l.into()),
            _ => {}
        }
    }
}

fn reset_stats(e: &mut Engine) {
    e.stats = Stats::default();
    e.smt.queries = 0;
    e.smt.sat = 0;
    e.smt.unsat = 0;
    e.smt.unknown = 0;
    e.smt.time = 0.0;
    e.violations.clear();
    e.witnesses.clear();
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = vec![];
    let mut entry = String::new();
    let mut workers = 8usize;
    let mut params = vec![];
    let mut time = 800.0f64;
    let mut out = None;
    let mut concrete: Option<Vec<u64>> = None;
    let mut wit = 0u64;
    let mut tmp = String::from("/tmp");
    let mut frontier_n = 1200usize;
    let mut max_viol = 4u64;
    let mut max_steps = 3_000_000u64;
    let mut trace = false;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll.push(v()),
            "--entry" => entry = v(),
            "--workers" => workers = v().parse().unwrap(),
            "--param" => {
                let s = v();
                let (k, x) = s.split_once('=').unwrap();
                params.push((k.parse::<u32>().unwrap(), x.parse::<u64>().unwrap()));
            }
            "--time" => time = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--tmp" => tmp = v(),
            "--witnesses" => wit = v().parse().unwrap(),
            "--frontier" => frontier_n = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--trace" => trace = true,
            "--concrete" => concrete = Some(v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            _ => panic!("argument {a}"),
        }
    }
    let t0 = Instant::now();
    let prog = prog::Program::load(&ll).unwrap_or_else(|e| {
        eprintln!("load: {e}");
        std::process::exit(3)
    });
    let mut e = Engine::new(prog);
    e.params = params.iter().copied().collect();
    e.max_steps = max_steps;
    e.trace = trace;
    let st = e.initial(&entry).unwrap_or_else(|m| {
        eprintln!("entry: {m}");
        std::process::exit(3)
    });
    if let Some(c) = concrete {
        e.concrete = Some(c);
        e.witness_every = 1;
        e.max_witness = 1;
        e.run(st);
        dump(&e, &mut std::io::stdout());
        return;
    }
    // breadth-first frontier
    e.stop_on_fork = true;
    let mut q: VecDeque<Box<State>> = VecDeque::new();
    q.push_back(st);
    let per = (wit / 8).max(2);
    e.max_witness = per as usize;
    e.witness_every = if wit > 0 { 1 } else { 0 };
    let want = if workers <= 1 { 1 } else { frontier_n };
    let bfs_limit = 8.0f64.max(time * 0.05);
    while let Some(s) = q.pop_front() {
        e.run(s);
        for x in e.work.drain(..) {
            q.push_back(x);
        }
        if q.len() >= want || e.violations.len() as u64 >= max_viol || t0.elapsed().as_secs_f64() > bfs_limit {
            break;
        }
    }
    e.stop_on_fork = false;
    let mut total = Total::default();
    let mut buf = vec![];
    dump(&e, &mut buf);
    merge(&mut total, std::str::from_utf8(&buf).unwrap());
    let bfs_s = t0.elapsed().as_secs_f64();
    let frontier: Vec<Box<State>> = q.into_iter().collect();
    let nfront = frontier.len();
    if !frontier.is_empty() && (e.violations.len() as u64) < max_viol {
        let nviol0 = e.violations.len() as u64;
        reset_stats(&mut e);
        let sh = unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            &*(p as *const [AtomicU64; 4])
        };
        sh[1].store(nviol0, Ordering::SeqCst);
        let n = frontier.len();
        // visit the frontier in a strided order, for balance
        let mut order: Vec<usize> = (0..n).collect();
        let mut r = 0x1234_5678_9abc_def1u64;
        for i in (1..n).rev() {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            order.swap(i, (r % (i as u64 + 1)) as usize);
        }
        let mut seq = 0usize;
        let mut live: Vec<(i32, String)> = vec![];
        let mut spawn = |e: &mut Engine, live: &mut Vec<(i32, String)>, frontier: &Vec<Box<State>>| {
            seq += 1;
            let path = format!("{tmp}/symx.{}.{seq}", std::process::id());
            let pid = unsafe { fork() };
            assert!(pid >= 0);
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0);
                }
                e.rng ^= (seq as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                let mut more = false;
                'outer: loop {
                    let k = sh[0].fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= n {
                        break;
                    }
                    e.work.push(frontier[order[k]].clone());
                    while let Some(s) = e.work.pop() {
                        let v0 = e.violations.len();
                        e.run(s);
                        if e.violations.len() > v0 {
                            sh[1].fetch_add(1, Ordering::SeqCst);
                        }
                        if sh[1].load(Ordering::SeqCst) >= max_viol {
                            break 'outer;
                        }
                        if t0.elapsed().as_secs_f64() > time {
                            e.stats.gave_up.insert("time limit".into(), e.work.len() as u64 + 1);
                            break 'outer;
                        }
                        if e.stats.paths & 255 == 0 {
                            e.trim();
                        }
                    }
                    if e.ts.nodes.len() > 12_000_000 {
                        more = true;
                        break;
                    }
                }
                let mut f = std::io::BufWriter::new(std::fs::File::create(&path).unwrap());
                dump(e, &mut f);
                f.flush().unwrap();
                unsafe { _exit(if more { 7 } else { 0 }) }
            }
            live.push((pid, path));
        };
        for _ in 0..workers.min(n).max(1) {
            spawn(&mut e, &mut live, &frontier);
        }
        while !live.is_empty() {
            let mut stt = 0;
            let pid = unsafe { waitpid(-1, &mut stt, 0) };
            let i = match live.iter().position(|x| x.0 == pid) {
                Some(i) => i,
                None => continue,
            };
            let (_, path) = live.swap_remove(i);
            match std::fs::read_to_string(&path) {
                Ok(t) if stt == 0 || stt == 7 << 8 => merge(&mut total, &t),
                _ => {
                    *total.gave.entry(format!("worker died with status {stt}")).or_insert(0) += 1;
                    sh[0].store(n as u64, Ordering::SeqCst);
                }
            }
            let _ = std::fs::remove_file(&path);
            if stt == 7 << 8 {
                spawn(&mut e, &mut live, &frontier);
            }
        }
        if (sh[0].load(Ordering::SeqCst) as usize) < n && total.viol.is_empty() {
            *total.gave.entry("frontier not exhausted".into()).or_insert(0) += 1;
        }
    }
    // JSON
    let mut o = String::from("{\n");
    o += &format!("\"entry\": {},\n", esc(&entry));
    o += &format!("\"seconds\": {:.2}, \"frontier\": {}, \"frontier_s\": {:.2},\n", t0.elapsed().as_secs_f64(), nfront, bfs_s);
    for (k, v) in &total.n {
        if k == "solver_s" {
            o += &format!("\"{k}\": {v:.2},\n");
        } else {
            o += &format!("\"{k}\": {},\n", *v as u64);
        }
    }
    let m = |b: &BTreeMap<u32, u64>| b.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ");
    o += &format!("\"reach\": {{{}}},\n", m(&total.reach));
    o += &format!(
        "\"gave_up\": {{{}}},\n",
        total.gave.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")
    );
    let inp = |s: &str| {
        s.split(',')
            .filter(|x| !x.is_empty())
            .map(|x| {
                let p: Vec<&str> = x.split(':').collect();
                format!("[{},{},{}]", p[0], p[1], p[2])
            })
            .collect::<Vec<_>>()
            .join(",")
    };
    let mut vs: Vec<&String> = total.viol.iter().collect();
    vs.sort_by_key(|l| l.len());
    o += &format!(
        "\"violations\": [{}],\n",
        vs.iter()
            .map(|l| {
                let p: Vec<&str> = l.split('\t').collect();
                format!(
                    "\n {{\"kind\": {}, \"id\": {}, \"msg\": {}, \"stack\": {}, \"inputs\": [{}]}}",
                    esc(p[1]),
                    p[2],
                    esc(p[3]),
                    esc(p[4]),
                    inp(p[5])
                )
            })
            .collect::<Vec<_>>()
            .join(",")
    );
    o += &format!(
        "\"witnesses\": [{}],\n",
        total
            .wit
            .iter()
            .map(|l| {
                let p: Vec<&str> = l.split('\t').collect();
                format!("\n {{\"inputs\": [{}], \"notes\": [{}]}}", inp(p[1]), p[2])
            })
            .collect::<Vec<_>>()
            .join(",")
    );
    o += &format!(
        "\"functions\": [{}]\n}}\n",
        total.funcs.iter().map(|f| esc(f)).collect::<Vec<_>>().join(",\n ")
    );
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{o}"),
    }
}
