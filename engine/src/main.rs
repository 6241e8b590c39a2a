//! symex: explores harness entry points of an LLVM module symbolically.
mod builtin;
mod exec;
mod ir;
mod llvm;
mod term;
#[allow(deprecated)]
mod z3;
use exec::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    cfg: usize,
    log: Vec<Dec>,
    model: Vec<u64>,
}
#[derive(Default)]
struct CfgRes {
    paths: u64,
    infeasible: u64,
    outstanding: u64,
    started: bool,
    complete: bool,
    viols: Vec<Viol>,
    seen: HashMap<String, u64>,
    errors: Vec<String>,
    reach: Vec<String>,
    steps: u64,
    checks: u64,
    checks_solver: u64,
    branches: u64,
    forks: u64,
    time: f64,
    recs: Vec<(Vec<u64>, u64)>,
}
struct Shared {
    cache: std::sync::Arc<z3::Cache>,
    q: Mutex<Queue>,
    cv: Condvar,
    res: Mutex<Vec<CfgRes>>,
    deadline: Instant,
}
struct Queue {
    jobs: VecDeque<Job>,
    idle: usize,
    outstanding: usize,
    done: bool,
}
struct Cfg {
    name: String,
    params: Vec<u64>,
    func: u32,
}

fn hash_obs(o: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in o {
        for b in x.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn strs(v: &[String]) -> String {
    let x: Vec<String> = v.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    format!("[{}]", x.join(","))
}
fn nums(v: &[u64]) -> String {
    let x: Vec<String> = v.iter().map(|s| s.to_string()).collect();
    format!("[{}]", x.join(","))
}

#[derive(Default)]
struct Totals {
    queries: u64,
    asked: u64,
    hits: u64,
    tabled: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    time: f64,
    max: f64,
    dump: Vec<(String, bool)>,
    cov: Vec<bool>,
    giveups: u64,
    gaveup: Vec<String>,
}

const REC_CAP: usize = 150_000;
const MAX_VIOLS: usize = 12;

fn worker(p: &ir::Prog, fb: &[Option<builtin::B>], cfgs: &[Cfg], sh: &Shared, opt: &Opt, tot: &Mutex<Totals>) {
    let mut ex = Exec::new(p, fb, opt.timeout_ms, sh.cache.clone());
    ex.sol.dump_every = opt.dump_every;
    ex.max_steps = opt.max_steps;
    let mut fresh = 0u64;
    loop {
        let job = {
            let mut q = sh.q.lock().unwrap();
            q.idle += 1;
            loop {
                if q.done || Instant::now() > sh.deadline {
                    q.done = true;
                    sh.cv.notify_all();
                    break None;
                }
                if let Some(j) = q.jobs.pop_front() {
                    q.idle -= 1;
                    break Some(j);
                }
                if q.outstanding == 0 {
                    q.done = true;
                    sh.cv.notify_all();
                    break None;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
            }
        };
        let job = match job {
            Some(j) => j,
            None => break,
        };
        // a bounded arena: start afresh when it has grown large
        if ex.ar.nodes.len() > 3_000_000 || fresh > 400_000 {
            merge(&mut ex, tot);
            let cov = std::mem::take(&mut ex.cov);
            ex = Exec::new(p, fb, opt.timeout_ms, sh.cache.clone());
            ex.sol.dump_every = opt.dump_every;
            ex.max_steps = opt.max_steps;
            ex.cov = cov;
            fresh = 0;
        }
        let cfg = job.cfg;
        sh.res.lock().unwrap()[cfg].started = true;
        ex.params = cfgs[cfg].params.clone();
        // nodes with hundreds of children take their time
        ex.max_steps = if cfgs[cfg].name.contains("wide") || cfgs[cfg].name.contains("many") { opt.max_steps * 10 } else { opt.max_steps };
        let t0 = Instant::now();
        let st0 = ex.start(cfgs[cfg].func, job.log, job.model);
        let mut local: VecDeque<State> = VecDeque::new();
        local.push_back(st0);
        let mut aborted = false;
        while let Some(mut st) = local.pop_back() {
            if Instant::now() > sh.deadline {
                aborted = true;
                break;
            }
            let steps0 = st.steps;
            let stop = ex.run(&mut st);
            fresh += 1;
            let forks = std::mem::take(&mut ex.forks);
            for f in forks {
                local.push_back(f);
            }
            let mut rec: Option<(Vec<u64>, u64)> = None;
            let mut err = None;
            let mut path = 0;
            let mut inf = 0;
            match stop {
                Stop::Done => {
                    path = 1;
                    if st.expect_panic {
                        let m = st.model.clone();
                        ex.violation(&st, "check", "expected panic did not happen".into(), m);
                    } else {
                        let (m, o) = ex.final_obs(&st);
                        rec = Some((m, hash_obs(&o)));
                    }
                }
                Stop::Infeasible => inf = 1,
                Stop::Bad(k, m) => {
                    path = 1;
                    let mo = st.model.clone();
                    ex.violation(&st, k, m, mo);
                }
                Stop::Panic(loc) => {
                    path = 1;
                    if !st.expect_panic {
                        let mo = st.model.clone();
                        ex.violation(&st, "panic", loc, mo);
                    } else {
                        let (m, o) = ex.final_obs(&st);
                        rec = Some((m, hash_obs(&o)));
                    }
                }
                Stop::Err(e) => {
                    let bt = ex_backtrace(&ex, &st);
                    err = Some(format!("{} in {}", e, bt));
                }
                Stop::Fork => {}
            }
            {
                let mut res = sh.res.lock().unwrap();
                let r = &mut res[cfg];
                r.paths += path;
                r.infeasible += inf;
                r.steps += st.steps - steps0;
                if let Some(x) = rec {
                    if r.recs.len() < REC_CAP {
                        r.recs.push(x);
                    }
                }
                if let Some(e) = err {
                    if r.errors.len() < 5 && !r.errors.contains(&e) {
                        r.errors.push(e);
                    }
                }
                for v in ex.viols.drain(..) {
                    let key = format!("{}|{}", v.kind, v.msg);
                    let n = r.seen.entry(key).or_insert(0);
                    *n += 1;
                    if *n <= 3 && r.viols.len() < MAX_VIOLS {
                        r.viols.push(v);
                    }
                }
                for x in ex.reach.drain(..) {
                    if !r.reach.contains(&x) {
                        r.reach.push(x);
                    }
                }
                if !r.errors.is_empty() && opt.stop_on_error {
                    aborted = true;
                }
            }
            if aborted {
                break;
            }
            // give work away
            if local.len() > 1 {
                let want = {
                    let q = sh.q.lock().unwrap();
                    q.idle > q.jobs.len()
                };
                if want {
                    let s = local.pop_front().unwrap();
                    let j = Job { cfg, log: s.log, model: s.model };
                    sh.res.lock().unwrap()[cfg].outstanding += 1;
                    let mut q = sh.q.lock().unwrap();
                    q.jobs.push_front(j);
                    q.outstanding += 1;
                    sh.cv.notify_one();
                }
            }
        }
        {
            let mut res = sh.res.lock().unwrap();
            let r = &mut res[cfg];
            if !aborted {
                r.outstanding -= 1;
                if r.outstanding == 0 {
                    r.complete = true;
                }
            }
            r.time += t0.elapsed().as_secs_f64();
            r.checks += ex.stats.checks;
            r.checks_solver += ex.stats.checks_solver;
            r.branches += ex.stats.branches;
            r.forks += ex.stats.forks;
            if ex.stats.giveups > 0 {
                r.errors.push(format!("solver gave up {} times", ex.stats.giveups));
            }
            let g = ex.stats.giveups;
            ex.stats = Stats::default();
            if g > 0 {
                let mut t = tot.lock().unwrap();
                t.giveups += g;
                let v = std::mem::take(&mut ex.gaveup);
                t.gaveup.extend(v);
            }
        }
        let mut q = sh.q.lock().unwrap();
        q.outstanding -= 1;
        if q.outstanding == 0 {
            q.done = true;
            sh.cv.notify_all();
        }
    }
    merge(&mut ex, tot);
}
fn ex_backtrace(ex: &Exec, st: &State) -> String {
    let b = ex.backtrace(st);
    b.into_iter().take(6).collect::<Vec<_>>().join(" < ")
}
fn merge(ex: &mut Exec, tot: &Mutex<Totals>) {
    let mut t = tot.lock().unwrap();
    t.queries += ex.sol.queries;
    t.asked += ex.sol.asked;
    t.hits += ex.sol.hits;
    t.tabled += ex.sol.tabled;
    t.sat += ex.sol.sat;
    t.unsat += ex.sol.unsat;
    t.unknown += ex.sol.unknown;
    t.time += ex.sol.time;
    t.max = t.max.max(ex.sol.max);
    if t.cov.len() < ex.cov.len() {
        t.cov.resize(ex.cov.len(), false);
    }
    for (i, b) in ex.cov.iter().enumerate() {
        if *b {
            t.cov[i] = true;
        }
    }
    let d = std::mem::take(&mut ex.sol.dump);
    t.dump.extend(d);
}

struct Opt {
    threads: usize,
    deadline: f64,
    timeout_ms: u32,
    dump_every: u64,
    max_steps: u64,
    stop_on_error: bool,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: symex module.ll configs out.json paths.txt [key=value...]");
        std::process::exit(2);
    }
    let mut opt = Opt {
        threads: 8,
        deadline: 600.0,
        timeout_ms: 20000,
        dump_every: 0,
        max_steps: 30_000_000,
        stop_on_error: false,
    };
    let mut dump_dir = String::new();
    for kv in &a[5..] {
        let (k, v) = kv.split_once('=').expect("key=value");
        match k {
            "threads" => opt.threads = v.parse().unwrap(),
            "deadline" => opt.deadline = v.parse().unwrap(),
            "timeout" => opt.timeout_ms = v.parse().unwrap(),
            "dump_every" => opt.dump_every = v.parse().unwrap(),
            "dump_dir" => dump_dir = v.to_string(),
            "steps" => opt.max_steps = v.parse().unwrap(),
            "stop" => opt.stop_on_error = v == "1",
            _ => panic!("unknown option {}", k),
        }
    }
    let t0 = Instant::now();
    let prog = match ir::load(&a[1]) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("cannot read {}: {}", a[1], e);
            std::process::exit(3);
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let fb: Vec<Option<builtin::B>> = prog.funcs.iter().map(|f| builtin::lookup(&f.name)).collect();
    let mut cfgs = vec![];
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let mut w = l.split_whitespace();
        let name = match w.next() {
            Some(n) => n.to_string(),
            None => continue,
        };
        let func = match prog.by_name.get(&name) {
            Some(f) => *f,
            None => {
                eprintln!("no function {}", name);
                std::process::exit(3);
            }
        };
        cfgs.push(Cfg { name, params: w.map(|x| x.parse().unwrap()).collect(), func });
    }
    let sh = Shared {
        cache: std::sync::Arc::new(z3::Cache::new()),
        q: Mutex::new(Queue {
            jobs: (0..cfgs.len()).map(|i| Job { cfg: i, log: vec![], model: vec![] }).collect(),
            idle: 0,
            outstanding: cfgs.len(),
            done: false,
        }),
        cv: Condvar::new(),
        res: Mutex::new((0..cfgs.len()).map(|_| CfgRes { outstanding: 1, ..Default::default() }).collect()),
        deadline: t0 + Duration::from_secs_f64(opt.deadline),
    };
    let tot = Mutex::new(Totals::default());
    let opt_ref = &opt;
    std::thread::scope(|s| {
        for _ in 0..opt_ref.threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || worker(&prog, &fb, &cfgs, &sh, opt_ref, &tot))
                .unwrap();
        }
    });
    let res = sh.res.into_inner().unwrap();
    let tot = tot.into_inner().unwrap();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"load_s\":{:.2},\"wall_s\":{:.2},\"functions\":{},\"instructions\":{},\"asked\":{},\"cached\":{},\"tabled\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.2},\"max_query_s\":{:.3},\"giveups\":{},\"gaveup\":{}",
        load,
        t0.elapsed().as_secs_f64(),
        prog.funcs.iter().filter(|f| !f.decl).count(),
        prog.ninsts,
        tot.asked,
        tot.hits,
        tot.tabled,
        tot.queries,
        tot.sat,
        tot.unsat,
        tot.unknown,
        tot.time,
        tot.max,
        tot.giveups,
        strs(&tot.gaveup)
    );
    o.push_str(",\"executed\":[");
    let mut first = true;
    for f in &prog.funcs {
        let n = f.blocks.len();
        if n == 0 || tot.cov.is_empty() {
            continue;
        }
        let c = (0..n).filter(|i| tot.cov[f.block_base as usize + i]).count();
        if c > 0 {
            if !first {
                o.push(',');
            }
            first = false;
            let _ = write!(o, "[\"{}\",{},{}]", esc(&f.name), c, n);
        }
    }
    o.push_str("],\"configs\":[");
    for (i, (c, r)) in cfgs.iter().zip(&res).enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "\n{{\"name\":\"{}\",\"params\":{},\"complete\":{},\"started\":{},\"paths\":{},\"infeasible\":{},\"steps\":{},\"branches\":{},\"forks\":{},\"checks\":{},\"checks_solver\":{},\"cpu_s\":{:.2},\"errors\":{},\"reach\":{},\"violations\":[",
            c.name,
            nums(&c.params),
            r.complete && r.errors.is_empty(),
            r.started,
            r.paths,
            r.infeasible,
            r.steps,
            r.branches,
            r.forks,
            r.checks,
            r.checks_solver,
            r.time,
            strs(&r.errors),
            strs(&r.reach)
        );
        for (j, v) in r.viols.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            let _ = write!(
                o,
                "{{\"kind\":\"{}\",\"msg\":\"{}\",\"values\":{},\"count\":{},\"trace\":{}}}",
                esc(&v.kind),
                esc(&v.msg),
                nums(&v.model),
                r.seen.get(&format!("{}|{}", v.kind, v.msg)).copied().unwrap_or(1),
                strs(&v.trace)
            );
        }
        o.push_str("]}");
    }
    o.push_str("]}\n");
    std::fs::write(&a[3], o).unwrap();
    let f = std::fs::File::create(&a[4]).unwrap();
    let mut w = std::io::BufWriter::new(f);
    for (c, r) in cfgs.iter().zip(&res) {
        let ps: Vec<String> = c.params.iter().map(|x| x.to_string()).collect();
        for (m, h) in &r.recs {
            let vs: Vec<String> = m.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(w, "{} {} : {} : {:x}", c.name, ps.join(" "), vs.join(" "), h);
        }
    }
    if !dump_dir.is_empty() {
        let _ = std::fs::create_dir_all(&dump_dir);
        for (i, (s, sat)) in tot.dump.iter().enumerate() {
            let _ = std::fs::write(
                format!("{}/q{}.{}.smt2", dump_dir, i, if *sat { "sat" } else { "unsat" }),
                format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s),
            );
        }
    }
}
