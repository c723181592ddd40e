mod exec;
mod intr;
mod ir;
mod mem;
mod smt;
mod term;

use exec::*;
use std::fmt::Write;

/// readable path of a v0-mangled name: the identifiers in order
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if l > 0 && l < 80 {
                let mut k = j;
                if k < b.len() && b[k] == b'_' {
                    k += 1;
                }
                if k + l <= b.len() && (b[k].is_ascii_alphabetic() || b[k] == b'_') && b[k..k + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                    parts.push(n[k..k + l].to_string());
                    i = k + l;
                    continue;
                }
            }
            i = j;
            continue;
        }
        // disambiguators "s<base62>_" and crate hashes are skipped
        if b[i] == b's' || b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    parts.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn jin(v: &[(String, Vec<u8>)]) -> String {
    let p: Vec<String> = v.iter().map(|(k, b)| format!("[{},{}]", js(k), js(&hex(b)))).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    // deep recursion in term evaluation
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(4);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut cfg = Cfg {
        fast: false,
        max_path_instrs: 30_000_000,
        max_secs: 300.0,
        max_paths: u64::MAX,
        params: vec![],
        fixed: vec![],
        samples: 16,
        max_violations: 1,
        seed: 1,
        verbose: false,
    };
    let (mut ll, mut entry, mut out) = (String::new(), String::new(), String::new());
    let mut i = 1;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--params" => cfg.params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--fixed" => cfg.fixed = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().ok()).collect(),
            "--max-secs" => cfg.max_secs = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--max-instrs" => cfg.max_path_instrs = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--max-violations" => cfg.max_violations = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--byte-domain" => {
                cfg.fast = true;
                i += 1;
                continue;
            }
            "--verbose" => {
                cfg.verbose = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("bad argument {}", x);
                return 3;
            }
        }
        i += 2;
    }
    let verbose = cfg.verbose;
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&ll).expect("read ll");
    let p = ir::Program::load(text);
    let tload = t0.elapsed().as_secs_f64();
    let mut e = Engine::new(p, cfg);
    if let Err(s) = e.start(&entry) {
        eprintln!("{:?}", s);
        return 3;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run()));
    if r.is_err() {
        e.errors.push("engine panicked".into());
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"entry\":{},\"params\":{:?},\"wall_s\":{:.3},\"load_s\":{:.3},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\"max_depth\":{},\"symbolic_bytes\":{},\"terms\":{}",
        js(&entry),
        e.cfg.params,
        wall,
        tload,
        e.st.paths,
        e.st.infeasible,
        e.st.forks,
        e.st.instrs,
        e.st.max_path_instrs,
        e.st.max_depth,
        e.st.max_vars,
        e.tm.nodes.len()
    );
    let _ = write!(
        o,
        ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"byte_domain_sat\":{},\"byte_domain_unsat\":{},\"query_cache_hits\":{},\"asserts_by_solver\":{},\"asserts_by_rewriting\":{},\"solver\":{},\"byte_domain\":{}",
        e.smt.queries, e.smt.sat, e.smt.unsat, e.smt.unknown, e.smt.secs, e.smt.max_secs, e.st.fast_sat, e.st.fast_unsat, e.st.cache_hits, e.st.asserts_solver, e.st.asserts_const, js(&format!("z3 {}", smt::Smt::version())), e.cfg.fast
    );
    let c: Vec<String> = e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, ",\"covers\":{{{}}}", c.join(","));
    let c: Vec<String> = e.asserts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, ",\"asserts\":{{{}}}", c.join(","));
    let mut fs: Vec<String> = vec![];
    let mut nf = 0;
    for (i, n) in e.fexec.iter().enumerate() {
        if *n > 0 {
            nf += 1;
            if e.p.funcs[i].name.contains("7rustful") {
                fs.push(js(&e.fname(i as u32)));
            }
        }
    }
    fs.sort();
    fs.dedup();
    let _ = write!(o, ",\"functions_executed\":{},\"functions_with_symbolic_branches\":{},\"repo_functions\":[{}]", nf, e.fsym.len(), fs.join(","));
    let c: Vec<String> = e
        .violations
        .iter()
        .map(|v| format!("{{\"id\":{},\"detail\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.id), js(&v.detail), jin(&v.inputs), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")))
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", c.join(","));
    let c: Vec<String> = e
        .samples
        .iter()
        .map(|s| {
            let outs: Vec<String> = s.outs.iter().map(|(t, b)| format!("[{},{}]", t, js(&hex(b)))).collect();
            format!("{{\"inputs\":{},\"outs\":[{}],\"end\":{}}}", jin(&s.inputs), outs.join(","), js(&s.end))
        })
        .collect();
    let _ = write!(o, ",\"samples\":[{}]", c.join(","));
    let c: Vec<String> = e.errors.iter().map(|s| js(s)).collect();
    let _ = write!(o, ",\"errors\":[{}],\"pending\":{}}}", c.join(","), e.work.len());
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, &o).unwrap();
    }
    if verbose {
        let mut v: Vec<_> = e.forksites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("fork {:8} {} bb{} ip{}", n, e.fname(k.0), k.1, k.2);
        }
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("instr {:10} {}", n, e.fname(**k));
        }
    }
    if !e.errors.is_empty() {
        2
    } else if !e.violations.is_empty() {
        1
    } else {
        0
    }
}
