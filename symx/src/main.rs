mod exec;
mod expr;
mod lin;
mod ll;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn alarm(s: u32) -> u32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Task {
    name: String,
    entry: String,
    params: Vec<u64>,
    k: usize,
    j: usize,
}

/// usage: symx module.ll outdir [--time S] [--steps N] [--jobs N] [--xcheck] [--prof] task...
/// task = entry | entry:1,2,3 | entry/8 | entry:1/8
fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut tasks: Vec<Task> = vec![];
    let mut time = 600u64;
    let mut steps = 400_000_000u64;
    let mut jobs = 8usize;
    let mut xcheck = false;
    let mut prof = false;
    let mut trace = false;
    let mut z3_ms = 60_000u32;
    let mut maxv = 8usize;
    let path = args[1].clone();
    let outdir = args[2].clone();
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--time" => {
                i += 1;
                time = args[i].parse().unwrap()
            }
            "--steps" => {
                i += 1;
                steps = args[i].parse().unwrap()
            }
            "--jobs" => {
                i += 1;
                jobs = args[i].parse().unwrap()
            }
            "--z3-timeout" => {
                i += 1;
                z3_ms = args[i].parse().unwrap()
            }
            "--max-violations" => {
                i += 1;
                maxv = args[i].parse().unwrap()
            }
            "--xcheck" => xcheck = true,
            "--prof" => prof = true,
            "--trace" => trace = true,
            t => {
                let (b, k) = match t.rsplit_once('/') {
                    Some((b, k)) => (b, k.parse().unwrap()),
                    None => (t, 1usize),
                };
                let (e, p) = match b.split_once(':') {
                    Some((e, p)) => (e, p.split(',').map(|x| x.parse().unwrap()).collect()),
                    None => (b, vec![]),
                };
                for j in 0..k {
                    tasks.push(Task { name: b.to_string(), entry: e.to_string(), params: p.clone(), k, j });
                }
            }
        }
        i += 1;
    }
    std::fs::create_dir_all(&outdir).unwrap();
    let t0 = Instant::now();
    let src = std::fs::read(&path).expect("read IR");
    let m = ll::Module::parse(&src);
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let nfun = m.funcs.iter().filter(|f| f.defined).count();
    let nins: u64 = m.funcs.iter().map(|f| f.ninstr as u64).sum();
    eprintln!("symx: parsed {} functions, {} instructions in {:.2}s", nfun, nins, parse_s);
    let lim = Limits {
        max_path_steps: steps,
        deadline: Instant::now() + Duration::from_secs(time),
        z3_timeout_ms: z3_ms,
        max_violations: maxv,
    };
    // globals etc. are prepared once; the solver context is only used after the fork
    let mut ex = Exec::new(m, lim);
    ex.xcheck = xcheck;
    ex.trace = trace;
    let mut running: Vec<i32> = vec![];
    let mut failed = false;
    let reap = |running: &mut Vec<i32>, failed: &mut bool| {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p > 0 {
            running.retain(|&x| x != p);
            if st != 0 {
                eprintln!("symx: worker {} ended with status {:#x}", p, st);
                *failed = true;
            }
        }
    };
    for (ti, t) in tasks.iter().enumerate() {
        while running.len() >= jobs {
            reap(&mut running, &mut failed);
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            // the solver does not always stop in time
            unsafe { alarm(ex.lim.deadline.saturating_duration_since(Instant::now()).as_secs() as u32 + 15) };
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_task(&mut ex, t, &format!("{}/task{}.json", outdir, ti), prof)));
            unsafe { _exit(if ok.is_ok() { 0 } else { 1 }) };
        }
        running.push(pid);
    }
    while !running.is_empty() {
        reap(&mut running, &mut failed);
    }
    let mut info = std::fs::File::create(format!("{}/module.json", outdir)).unwrap();
    writeln!(
        info,
        "{{\"functions\":{},\"instructions\":{},\"parse_s\":{:.3},\"tasks\":{},\"wall_s\":{:.3}}}",
        nfun,
        nins,
        parse_s,
        tasks.len(),
        t0.elapsed().as_secs_f64()
    )
    .unwrap();
    std::process::exit(if failed { 3 } else { 0 });
}

fn run_task(ex: &mut Exec, t: &Task, out: &str, prof: bool) {
    let t0 = Instant::now();
    ex.params = t.params.clone();
    if !ex.start(&t.entry) {
        eprintln!("symx: no entry {}", t.entry);
        unsafe { _exit(4) };
    }
    if t.k > 1 {
        ex.run(Some(t.k * 12));
        // keep only the share of this sub-task
        let w: Vec<State> = std::mem::take(&mut ex.work).into();
        if t.j != 0 {
            // paths finished during the common prefix are accounted for by sub-task 0
            ex.st.paths = 0;
            ex.st.assumed_away = 0;
            ex.st.checks = 0;
            ex.st.checks_const = 0;
            ex.st.checks_solver = 0;
            ex.viol.clear();
            ex.incomplete.clear();
        }
        for (i, s) in w.into_iter().enumerate() {
            if i % t.k == t.j {
                ex.work.push_back(s);
            }
        }
    }
    ex.run(None);
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"task\":{},\"part\":{},\"parts\":{},\"entry\":{},\"params\":{:?},\"paths\":{},\"assumed_away\":{},\"instrs\":{},\"forks\":{},\"fast\":{},\"rewritten\":{},\"cached\":{},\"syntactic\":{},\"z3\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_s\":{:.3},\"z3_max_s\":{:.3},\"xchecks\":{},\"checks\":{},\"checks_solver\":{},\"checks_const\":{},\"loads_sym\":{},\"max_depth\":{},\"max_vars\":{},\"exprs\":{},\"wall_s\":{:.3}",
        js(&t.name), t.j, t.k, js(&t.entry), t.params, ex.st.paths, ex.st.assumed_away, ex.st.instrs, ex.st.forks, ex.st.fast, ex.st.rewritten, ex.st.cached, ex.st.syntactic,
        ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.time, ex.z3.max_time, ex.xchecks, ex.st.checks, ex.st.checks_solver, ex.st.checks_const, ex.st.loads_sym, ex.st.max_forks, ex.st.max_vars, ex.cx.nodes.len(), t0.elapsed().as_secs_f64()
    ));
    let m = |b: &BTreeMap<String, u64>| {
        let v: Vec<String> = b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    o.push_str(&format!(",\"reach\":{},\"check_labels\":{}", m(&ex.reach), m(&ex.checks_seen)));
    let mut fns: Vec<String> = vec![];
    for (i, &n) in ex.fn_seen.iter().enumerate() {
        if n > 0 {
            fns.push(js(&demangle(&ex.m.funcs[i].name)));
        }
    }
    o.push_str(&format!(",\"functions\":[{}]", fns.join(",")));
    let inc: Vec<String> = uniq(std::mem::take(&mut ex.incomplete)).into_iter().take(20).map(|x| js(&x)).collect();
    o.push_str(&format!(",\"incomplete\":[{}]", inc.join(",")));
    let vs: Vec<String> = ex
        .viol
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"bytes\":{},\"text\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
                js(&show_bytes(&v.bytes)),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    o.push_str(&format!(",\"violations\":[{}]", vs.join(",")));
    let ss: Vec<String> = ex
        .samples
        .iter()
        .map(|(a, b)| format!("{{\"bytes\":\"{}\",\"text\":{},\"reach\":{}}}", b.iter().map(|b| format!("{:02x}", b)).collect::<String>(), js(&show_bytes(b)), js(a)))
        .collect();
    o.push_str(&format!(",\"samples\":[{}]", ss.join(",")));
    o.push_str("}\n");
    std::fs::write(out, o).unwrap();
    if prof {
        let mut v: Vec<_> = ex.prof_forks.iter().map(|(k, v)| (*v, *k)).collect();
        v.sort_by(|a, b| b.cmp(a));
        for (n, (f, b)) in v.iter().take(25) {
            eprintln!("forks {:8} {} [{}]", n, demangle(&ex.m.funcs[*f as usize].name), ex.m.funcs[*f as usize].blocks[*b as usize].name);
        }
        let mut v: Vec<_> = ex.prof_z3.iter().map(|(k, v)| (*v, *k)).collect();
        v.sort_by(|a, b| b.cmp(a));
        for (n, (f, b)) in v.iter().take(15) {
            eprintln!("z3    {:8} {} [{}]", n, demangle(&ex.m.funcs[*f as usize].name), ex.m.funcs[*f as usize].blocks[*b as usize].name);
        }
    }
}
