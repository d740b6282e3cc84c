//! qsim: deterministic simulation of qlab with fault injection. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod alloc;
mod calreg;
mod cx;
mod dict;
mod elf;
mod engine;
mod exec;
mod json;
mod mini;
mod model;
mod obj;
mod oracle;
mod plug;
mod props;
mod rng;
mod rt;
mod simval;
mod uni;

use engine::{execute, Bases, Report, Run, Viol};
use json::J;
use rng::{derive, fnv, mix};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use uni::Uni;

#[global_allocator]
static A: alloc::Sim = alloc::Sim;

const BASELINE_UID: u32 = 4_000_000_000;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map_or("", |s| s.as_str());
    fix_addresses();
    let code = match cmd {
        "check" => check(&a),
        "worker" => worker(&a),
        "replay" => replay(&a),
        "selftest" => selftest(&a),
        _ => {
            eprintln!("usage: qsim check PROP [--tier quick|thorough] [--seed N] | replay FILE | selftest");
            2
        }
    };
    std::process::exit(code);
}
/// No address randomisation: re-executes once with it disabled, where that is permitted.
fn fix_addresses() {
    const NORAND: libc::c_ulong = libc::ADDR_NO_RANDOMIZE as libc::c_ulong;
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && (cur as libc::c_ulong) & NORAND == 0 && libc::personality(cur as libc::c_ulong | NORAND) >= 0 {
            let now = libc::personality(0xffff_ffff);
            if now as libc::c_ulong & NORAND != 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                eprintln!("re-exec: {e}");
            }
        }
    }
}
fn opt(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
/// simulated runs are generated per universe; universes and wall-clock seconds per tier
fn size(prop: &str, tier: &str) -> (u64, i64) {
    let h = props::is_h(prop);
    if tier == "thorough" {
        return (if h { 10_000_000 } else { 100_000_000 }, 600);
    }
    match prop {
        "C02" => (700, 100),
        "C16" => (700, 100),
        "C17" => (400, 100),
        "C18" => (128, 100),
        _ if h => (1200, 100),
        _ => (40_000, 100),
    }
}
fn setup(hot: bool) {
    calreg::init();
    dict::init();
    alloc::init();
    engine::shm_init();
    if hot {
        let s = elf::Syms::load();
        let p = rt::pcs();
        let n = rt::guard_count() as usize + 2;
        let mut v = vec![0u8; n];
        for (i, e) in p.chunks(2).enumerate() {
            if i + 1 < n && elf::hot(s.at(e[0] as u64)) {
                v[i + 1] = 1;
            }
        }
        unsafe { engine::HOT = v };
    }
}
fn install(u: Uni) -> &'static Uni {
    let u: &'static Uni = Box::leak(Box::new(u));
    exec::install(u);
    u
}
fn uninstall(u: &'static Uni) {
    unsafe { drop(Box::from_raw(std::ptr::from_ref(u).cast_mut())) }
}
#[derive(Default)]
struct Sum {
    runs: u64,
    unis: u64,
    bases: u64,
    nontrivial: u64,
    hist: HashSet<u64>,
    stats: Vec<u64>,
    faults: BTreeMap<String, u64>,
    callbacks: Vec<u64>,
    digest: u64,
    kinds: BTreeMap<String, u64>,
}
impl Sum {
    fn add(&mut self, r: &Run, rep: &Report, key: u64) {
        self.runs += 1;
        if self.stats.is_empty() {
            self.stats = vec![0; engine::STATS.len()];
            self.callbacks = vec![0; cx::NSEAM];
        }
        for (a, b) in self.stats.iter_mut().zip(&rep.stats) {
            *a += b;
        }
        for (a, b) in self.callbacks.iter_mut().zip(&rep.callbacks) {
            *a += b;
        }
        let mut faults = 0;
        for (k, n) in &rep.faults {
            *self.faults.entry(k.clone()).or_default() += n;
            faults += n;
        }
        let (switches, calls) = (rep.stats.first().copied().unwrap_or(0), rep.stats.get(12).copied().unwrap_or(0));
        let mut add = |k: &str, n: u64| {
            if n > 0 {
                *self.kinds.entry(k.into()).or_default() += n;
            }
        };
        let all = || r.tasks.iter().flatten();
        add("object_dropped_and_rebuilt", all().map(|s| s.drops.len() as u64).sum());
        add("surroundings_changed(clock,entropy,environment,files,cpus,pid)", all().filter(|s| s.amb.is_some()).count() as u64);
        add("heap_layout_changed", all().filter(|s| s.junk > 0).count() as u64);
        add("calls_made_while_the_thread_locals_are_destroyed", (0..r.tasks.len()).map(|t| engine::late_steps(r, t) as u64).sum());
        let mut envs = 0;
        for s in all() {
            match exec::uni().ops[s.op] {
                uni::Op::Market { .. } => add("market_level_moved_between_calls", 1),
                uni::Op::Flip { .. } => add("calendar_day_flipped_between_calls", 1),
                uni::Op::Outage { on: true, .. } => add("calendar_outage_started", 1),
                uni::Op::Outage { on: false, .. } => add("calendar_outage_ended", 1),
                _ => continue,
            }
            envs += 1;
        }
        let nontrivial = match r.prop.as_str() {
            "C01" => switches > 0 && calls > 1,
            "C02" => calls > 1,
            "C03" | "C05" | "C14" => faults > 0,
            "C12" => calls > 0,
            "C04" | "C16" | "C17" | "C18" => calls > 0,
            "C10" => calls > 0,
            _ => calls > 0 && faults + switches + envs > 0,
        };
        let h = mix(rep.hist ^ fnv(&r.useed.to_le_bytes()));
        if nontrivial {
            self.nontrivial += 1;
            self.hist.insert(h);
        }
        self.digest ^= mix(h ^ key ^ fnv(rep.viol.as_ref().map_or(String::new(), |v| v.msg.clone()).as_bytes()));
    }
}
struct Found {
    run: Run,
    rep: Report,
}
/// runs everything of one universe; stops at the first violation
fn universe(prop: &str, seed: u64, idx: u64, sum: &mut Sum, u: &'static Uni, bases: &mut Bases, stop: &dyn Fn() -> bool) -> Result<Option<Found>, String> {
    let useed = props::uni_seed(prop, seed, idx);
    sum.unis += 1;
    for k in 0..props::per_uni(prop) {
        if stop() {
            break;
        }
        let rseed = derive(useed, k, 77);
        let run = if props::is_h(prop) { props::gen_run_h(prop, u, useed, rseed, bases) } else { props::gen_run_p(prop, u, useed, rseed) };
        if let Some((op, v)) = bases.bad.take() {
            let run = Run { prop: prop.into(), useed, seed: rseed, prebuild: vec![], tasks: vec![vec![engine::Step { op, uid: BASELINE_UID, ..Default::default() }]], nested: vec![], policy: rt::Policy::Seq, plan: vec![] };
            return Ok(Some(Found { run, rep: Report { viol: Some(v), ..Default::default() } }));
        }
        if run.tasks.iter().all(Vec::is_empty) {
            continue;
        }
        let rep = execute(&run, &bases.v, false, false);
        if let Some(h) = &rep.harness {
            return Err(format!("{h} (universe {idx}, run {k})"));
        }
        sum.add(&run, &rep, derive(idx, k, 5));
        if rep.viol.is_some() {
            return Ok(Some(Found { run, rep }));
        }
    }
    Ok(None)
}
fn worker(a: &[String]) -> i32 {
    let (prop, seed, w, n, unis, secs, dir) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap(), a[7].parse::<i64>().unwrap(), a[8].as_str());
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    setup(true);
    let t0 = rt::raw_now();
    let stop = || rt::raw_now() - t0 > secs * 1_000_000_000;
    let mut sum = Sum::default();
    let mut samples: Vec<J> = vec![];
    let mut idx = w;
    let mut complete = true;
    while idx < unis {
        if stop() {
            complete = false;
            break;
        }
        let u = install(props::make_uni(prop, props::uni_seed(prop, seed, idx)));
        let mut bases = Bases::new(u);
        match universe(prop, seed, idx, &mut sum, u, &mut bases, &stop) {
            Err(e) => {
                let _ = std::fs::write(format!("{dir}/error.{w}"), e);
                return 2;
            }
            Ok(Some(f)) => {
                let (run, v, tries) = mini::minimise(&f.run, &f.rep, &bases.v, u, 25);
                let rep = execute(&run, &bases.v, false, true);
                let mut j = engine::run_json(&run, u, &v, &rep.trace);
                if let J::Obj(o) = &mut j {
                    o.push(("found_in".into(), J::Str(format!("seed {seed} universe {idx}; minimised in {tries} runs from {} calls", f.run.tasks.iter().map(Vec::len).sum::<usize>()))));
                }
                let full = engine::run_json(&f.run, u, f.rep.viol.as_ref().unwrap(), &[]);
                let _ = std::fs::write(format!("{dir}/full.{w}"), full.text());
                let _ = std::fs::write(format!("{dir}/viol.{w}.tmp"), j.text());
                let _ = std::fs::rename(format!("{dir}/viol.{w}.tmp"), format!("{dir}/viol.{w}"));
                sum.bases += bases.made;
                break;
            }
            Ok(None) => {}
        }
        sum.bases += bases.made;
        if w == 0 && samples.len() < 2 {
            // write out one run of this universe
            let useed = props::uni_seed(prop, seed, idx);
            let rs = derive(useed, samples.len() as u64, 77);
            let run = if props::is_h(prop) { props::gen_run_h(prop, u, useed, rs, &mut bases) } else { props::gen_run_p(prop, u, useed, derive(useed, 0, 77)) };
            if run.tasks.iter().map(Vec::len).sum::<usize>() <= 14 && !run.tasks.iter().all(Vec::is_empty) {
                let rep = execute(&run, &bases.v, false, true);
                let sched = rep.plan.len();
                let mut r2 = run.clone();
                if !rep.truncated && sched <= 40 {
                    r2.plan = rep.plan.clone();
                }
                let none = Viol { class: "none".into(), task: -1, uid: 0, msg: String::new() };
                samples.push(engine::run_json(&r2, u, &none, &rep.trace));
            }
        }
        uninstall(u);
        idx += n;
    }
    let m = |v: &BTreeMap<String, u64>| J::Obj(v.iter().map(|(k, n)| (k.clone(), J::Int(*n as i64))).collect());
    let nums = |v: &[u64]| J::Arr(v.iter().map(|x| J::Int(*x as i64)).collect());
    let j = J::obj(vec![
        ("runs", J::Int(sum.runs as i64)),
        ("unis", J::Int(sum.unis as i64)),
        ("bases", J::Int(sum.bases as i64)),
        ("nontrivial", J::Int(sum.nontrivial as i64)),
        ("stats", nums(&sum.stats)),
        ("callbacks", nums(&sum.callbacks)),
        ("faults", m(&sum.faults)),
        ("kinds", m(&sum.kinds)),
        ("digest", J::Str(format!("{:016x}", sum.digest))),
        ("complete", J::Bool(complete)),
        ("samples", J::Arr(samples)),
    ]);
    let mut h: Vec<u8> = vec![];
    for x in &sum.hist {
        h.extend_from_slice(&x.to_le_bytes());
    }
    let cov = unsafe { std::slice::from_raw_parts(engine::COV, engine::COV_N) };
    let _ = std::fs::write(format!("{dir}/hist.{w}"), h);
    let _ = std::fs::write(format!("{dir}/cov.{w}"), cov);
    let _ = std::fs::write(format!("{dir}/sum.{w}"), j.text());
    0
}
fn verif() -> String {
    std::env::var("QSIM_HOME").unwrap_or_else(|_| "/verif".into())
}
/// replays a file in this process; the violation found, if any
fn replay_file(path: &str) -> Result<(Option<Viol>, Viol, Vec<String>, String), String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let j = J::parse(&t).ok_or("not a replay file")?;
    let prop = j.get("property").str().to_string();
    if !j.get("static").str().is_empty() {
        let want = j.get("static").str().to_string();
        let v = Viol { class: "unshareable".into(), task: -1, uid: 0, msg: want.clone() };
        let got = obj::unshareable().iter().any(|x| **x == *want).then(|| v.clone());
        return Ok((got, v, vec![], prop));
    }
    setup(true);
    let (run, want) = engine::run_of(&j);
    let u = install(props::make_uni(&prop, run.useed));
    let mut bases = Bases::new(u);
    if props::is_h(&prop) {
        for s in run.tasks.iter().flatten().chain(&run.nested) {
            bases.get(&prop, s.op);
            if let (Some((_, v)), true) = (bases.bad.take(), s.uid == BASELINE_UID) {
                return Ok((Some(v), want, vec![], prop));
            }
        }
        props::sizes(&prop, u, &run, &mut bases);
    }
    let rep = execute(&run, &bases.v, false, true);
    if let Some(h) = rep.harness {
        return Err(format!("harness error: {h}"));
    }
    Ok((rep.viol, want, rep.trace, prop))
}
fn replay(a: &[String]) -> i32 {
    let quiet = a.iter().any(|x| x == "--quiet");
    match replay_file(&a[2]) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok((got, want, trace, prop)) => {
            if !quiet {
                for t in trace {
                    println!("  {t}");
                }
            }
            match got {
                Some(v) if v == want => {
                    println!("REPRODUCED {}: {}", v.class, v.msg);
                    if !quiet {
                        println!("VIOLATION property={prop} replay={}", a[2]);
                    }
                    1
                }
                Some(v) => {
                    println!("DIFFERENT violation {} at task {} call {}: {}\n  recorded {} at task {} call {}: {}", v.class, v.task, v.uid, v.msg, want.class, want.task, want.uid, want.msg);
                    if !quiet {
                        println!("VIOLATION property={prop} replay={}", a[2]);
                    }
                    3
                }
                None => {
                    println!("no violation; recorded {}: {}", want.class, want.msg);
                    0
                }
            }
        }
    }
}
fn me() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}
fn check(a: &[String]) -> i32 {
    let prop = a.get(2).cloned().unwrap_or_default();
    if !props::PROPS.contains(&prop.as_str()) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let tier = opt(a, "--tier").unwrap_or_else(|| "quick".into());
    let seed: u64 = opt(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut unis, mut secs) = size(&prop, &tier);
    if let Some(x) = opt(a, "--universes") {
        unis = x.parse().unwrap();
    }
    if let Some(x) = opt(a, "--seconds") {
        secs = x.parse().unwrap();
    }
    let n: u64 = opt(a, "--workers").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |x| x.get() as u64).clamp(2, 16));
    let t0 = std::time::Instant::now();
    let home = verif();
    let dir = format!("{home}/.build/work/{prop}.{}", std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let mut ws: Vec<std::process::Child> = (0..n)
        .map(|w| {
            std::process::Command::new(me())
                .args(["worker", &prop, &seed.to_string(), &w.to_string(), &n.to_string(), &unis.to_string(), &secs.to_string(), &dir])
                .spawn()
                .expect("worker")
        })
        .collect();
    let mut error: Option<String> = None;
    let mut done = vec![false; ws.len()];
    let mut found_at: Option<std::time::Instant> = None;
    loop {
        let mut left = 0;
        for (i, c) in ws.iter_mut().enumerate() {
            if done[i] {
                continue;
            }
            match c.try_wait() {
                Ok(Some(s)) => {
                    done[i] = true;
                    if !s.success() && found_at.is_none() {
                        error = Some(std::fs::read_to_string(format!("{dir}/error.{i}")).unwrap_or_else(|_| format!("worker {i}: {s}")));
                    }
                }
                _ => left += 1,
            }
        }
        if found_at.is_none() && (0..n).any(|w| std::path::Path::new(&format!("{dir}/viol.{w}")).exists()) {
            found_at = Some(std::time::Instant::now());
        }
        if left == 0 {
            break;
        }
        if found_at.is_some_and(|t| t.elapsed().as_secs() >= 2) || error.is_some() {
            for (i, c) in ws.iter_mut().enumerate() {
                if !done[i] {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(30));
    }
    if let (Some(e), None) = (&error, found_at) {
        eprintln!("harness error: {e}");
        let _ = std::fs::remove_dir_all(&dir);
        return 2;
    }
    // violations
    let mut files: Vec<(String, String)> = vec![];
    if prop == "C01" {
        for (i, m) in obj::unshareable().iter().enumerate() {
            let f = format!("{dir}/static.{i}");
            let j = J::obj(vec![("format", J::Int(1)), ("property", J::s(&prop)), ("static", J::s(m))]);
            let _ = std::fs::write(&f, j.text());
            files.push((f.clone(), f));
        }
    }
    for w in 0..n {
        let f = format!("{dir}/viol.{w}");
        if std::path::Path::new(&f).exists() {
            files.push((f, format!("{dir}/full.{w}")));
        }
    }
    let mut reported = 0;
    let _ = std::fs::create_dir_all(format!("{home}/replays"));
    let mut unsure = vec![];
    for (f, full) in &files {
        let mut ok = None;
        for cand in [f, full] {
            for _ in 0..2 {
                let o = std::process::Command::new(me()).args(["replay", cand, "--quiet"]).output();
                if let Ok(o) = o {
                    if o.status.code() == Some(1) {
                        ok = Some((cand.clone(), String::from_utf8_lossy(&o.stdout).trim().to_string()));
                        break;
                    }
                    unsure.push(String::from_utf8_lossy(&o.stdout).trim().to_string());
                }
            }
            if ok.is_some() {
                break;
            }
        }
        if let Some((cand, text)) = ok {
            let t = std::fs::read_to_string(&cand).unwrap_or_default();
            let path = format!("{home}/replays/{prop}-{:016x}.json", fnv(t.as_bytes()));
            let _ = std::fs::write(&path, t);
            println!("{}", text.trim_start_matches("REPRODUCED "));
            println!("VIOLATION property={prop} replay={path}");
            reported += 1;
            break;
        }
    }
    let code = if reported > 0 {
        1
    } else if files.is_empty() {
        0
    } else {
        // seen, but not twice: say so and give no verdict
        for u in unsure.iter().take(3) {
            eprintln!("not reproduced: {u}");
        }
        2
    };
    evidence(&home, &dir, &prop, &tier, seed, n, t0, code, reported);
    let _ = std::fs::remove_dir_all(&dir);
    code
}
#[allow(clippy::too_many_arguments, clippy::too_many_lines)]
fn evidence(home: &str, dir: &str, prop: &str, tier: &str, seed: u64, n: u64, t0: std::time::Instant, code: i32, reported: i64) {
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats = vec![0u64; engine::STATS.len()];
    let mut calls = vec![0u64; cx::NSEAM];
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut hist: HashSet<u64> = HashSet::new();
    let mut cov: Vec<u8> = vec![];
    let mut digest = 0u64;
    let mut complete = true;
    let mut samples = vec![];
    for w in 0..n {
        let Some(j) = std::fs::read_to_string(format!("{dir}/sum.{w}")).ok().and_then(|t| J::parse(&t)) else {
            complete = false;
            continue;
        };
        for k in ["runs", "unis", "bases", "nontrivial"] {
            *tot.entry(k.into()).or_default() += j.get(k).int() as u64;
        }
        for (a, b) in stats.iter_mut().zip(j.get("stats").arr()) {
            *a += b.int() as u64;
        }
        for (a, b) in calls.iter_mut().zip(j.get("callbacks").arr()) {
            *a += b.int() as u64;
        }
        for (m, k) in [(&mut faults, "faults"), (&mut kinds, "kinds")] {
            if let J::Obj(o) = j.get(k) {
                for (x, y) in o {
                    *m.entry(x.clone()).or_default() += y.int() as u64;
                }
            }
        }
        digest ^= u64::from_str_radix(j.get("digest").str(), 16).unwrap_or(0);
        complete &= *j.get("complete") == J::Bool(true);
        samples.extend(j.get("samples").arr().iter().cloned());
        if let Ok(b) = std::fs::read(format!("{dir}/hist.{w}")) {
            for c in b.chunks_exact(8) {
                hist.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Ok(b) = std::fs::read(format!("{dir}/cov.{w}")) {
            if cov.is_empty() {
                cov = b;
            } else {
                for (x, y) in cov.iter_mut().zip(b) {
                    *x |= y;
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // library edges and functions
    let syms = elf::Syms::load();
    let mut per: BTreeMap<&str, (u64, u64, HashSet<u64>, HashSet<u64>)> = BTreeMap::new();
    for (i, e) in rt::pcs().chunks(2).enumerate() {
        let name = syms.at(e[0] as u64);
        if let Some(l) = elf::library(name) {
            let x = per.entry(elf::LIBS[l].trim_start_matches(|c: char| c.is_ascii_digit())).or_default();
            x.0 += 1;
            x.2.insert(fnv(name.as_bytes()));
            if cov.get(i + 1) == Some(&1) {
                x.1 += 1;
                x.3.insert(fnv(name.as_bytes()));
            }
        }
    }
    if let Ok(f) = std::env::var("QSIM_UNREACHED") {
        let mut fns: BTreeMap<String, (u64, u64)> = BTreeMap::new();
        for (i, e) in rt::pcs().chunks(2).enumerate() {
            let name = syms.at(e[0] as u64);
            if elf::library(name).is_some() {
                let x = fns.entry(name.into()).or_default();
                x.0 += 1;
                x.1 += u64::from(cov.get(i + 1) == Some(&1));
            }
        }
        let _ = std::fs::write(f, fns.iter().map(|(n, x)| format!("{} {} {n}\n", x.1, x.0)).collect::<String>());
    }
    let i = |v: u64| J::Int(v as i64);
    let runs = tot.get("runs").copied().unwrap_or(0);
    let per_hour = |v: u64| i((v as f64 * 3600.0 / wall.max(0.001)) as u64);
    let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), i(*v))).collect());
    let edges = J::Obj(per.iter().map(|(k, x)| ((*k).to_string(), J::Str(format!("{} of {} edges, {} of {} function instances", x.1, x.0, x.3.len(), x.2.len())))).collect());
    let mut c = vec![
        ("evaluations".to_string(), i(runs)),
        ("distinct_nontrivial".into(), i(hist.len() as u64)),
        ("rule".into(), J::s(rule(prop))),
        ("samples".into(), J::Arr(samples.into_iter().take(2).collect())),
        ("runs_per_hour".into(), per_hour(runs)),
        ("universes".into(), i(tot.get("unis").copied().unwrap_or(0))),
        ("universes_per_hour".into(), per_hour(tot.get("unis").copied().unwrap_or(0))),
        ("calls_executed_alone_for_comparison".into(), i(tot.get("bases").copied().unwrap_or(0))),
        ("all_planned_universes_completed".into(), J::Bool(complete)),
        ("digest_of_all_runs".into(), J::Str(format!("{digest:016x}"))),
        ("simulated_time".into(), J::Str(format!("{} scheduler steps (one basic block of library code each); one step is one simulated nanosecond, plus the clock jumps counted below", stats[11]))),
        ("library_calls".into(), i(stats[12])),
        ("plugin_callbacks".into(), J::Obj(cx::SEAM_NAMES.iter().zip(&calls).map(|(k, v)| ((*k).to_string(), i(*v))).collect())),
        ("faults_injected".into(), map(&faults)),
        ("events_between_calls".into(), map(&kinds)),
        ("scheduler".into(), J::Obj(engine::STATS.iter().zip(&stats).take(11).map(|(k, v)| ((*k).to_string(), i(*v))).collect())),
        ("distinct_measure".into(), J::s("hash of the sequence of calls, preemption points (task, call, basic-block step), steps per call and results")),
        ("edges_reached".into(), edges),
        ("real_components".into(), J::s("all qlab crates and the vendored calendar crate, chrono, num-traits, std; threads are real threads run one at a time")),
        ("stub_components".into(), J::s("user plug-ins (interpolator, day count, calendars, period, number type) where a run uses simulated ones; clock, entropy, environment, files, cpu count, pid, futex, sleep, heap")),
        ("workers".into(), i(n)),
    ];
    if code == 2 {
        c.push(("note".into(), J::s("a violation was seen but not reproduced")));
    }
    let j = J::obj(vec![
        ("property", J::s(prop)),
        ("tier", J::s(tier)),
        ("seed", i(seed)),
        ("level", J::s("exploration")),
        ("coverage", J::Obj(c)),
        (
            "assumptions",
            J::Arr(vec![
                J::s("executions are sequentially consistent: one thread runs at a time and preemption happens at basic block boundaries of library code"),
                J::s("the search samples universes, schedules and faults from seeds; it does not enumerate them"),
            ]),
        ),
        ("wall_s", J::Num((wall * 1000.0).round() / 1000.0)),
        ("violations", J::Int(reported)),
    ]);
    let _ = std::fs::create_dir_all(format!("{home}/evidence"));
    let _ = std::fs::write(format!("{home}/evidence/{prop}.json"), j.text() + "\n");
    let f: u64 = faults.values().sum::<u64>() + kinds.values().sum::<u64>();
    println!("{prop} {tier} seed {seed}: {runs} runs ({} distinct non-trivial) in {} universes, {} calls, {} faults and events, {} preemptions, {wall:.1} s, digest {digest:016x}{}", hist.len(), tot.get("unis").copied().unwrap_or(0), stats[12], f, stats[1], if complete { "" } else { " (time limit reached)" });
    let _ = std::io::stdout().flush();
}
fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "a run is a seeded set of 2-6 threads calling the library on shared objects under a seeded preemptive schedule; non-trivial if at least one switch happened between two or more calls",
        "C02" => "a run is a seeded sequential history of calls, object drops and re-creations; non-trivial if it has two or more calls",
        "C03" => "a run is a seeded history with panicking plug-ins; non-trivial if a panic was actually injected",
        "C04" => "a run is a seeded history under changing clocks, entropy, environment, files, cpu count, pid and heap layout; non-trivial if a call was made",
        "C05" => "a run is a seeded history in which plug-ins call back into the library; non-trivial if a nested call happened",
        "C12" => "a run is a seeded set of calls (succeeding, failing, or dying with a panicking plug-in) made in 8 to 4096 rounds with every object dropped after each; non-trivial if a call was made",
        "C13" => "a run is a seeded history of calls whose plug-ins fail for good, or never give the same data twice, from a chosen question on; non-trivial if a fault fired, the data changed between calls or the schedule switched",
        "C14" => "a run is a seeded set of 2-6 threads in which 1-3 plug-ins do not answer until every other thread is done or waits; non-trivial if a plug-in was actually stalled",
        "C15" => "a run is a seeded history of calls with failing, panicking or changing plug-ins whose every question is recorded when it is asked; non-trivial if a fault fired, the data changed between calls or the schedule switched",
        "C16" => "a run is a seeded history of calls, each with a limit on the heap it may use and a stack of 128 KiB, on objects of up to 16 000 points, 8 000 pillars or 900 payments and stretches of up to 64 000 days; non-trivial if a call was made under the limit",
        "C17" => "a run is a seeded history or set of threads whose calls fail, panic or change their surroundings anywhere, with every system call of the process watched; non-trivial if a call was made",
        "C19" => "a run is a seeded history of calls with one failure or panic of a plug-in, or one that stays, at a chosen question; non-trivial if a fault fired, the data changed between calls or the schedule switched",
        "C18" => "a run is a seeded history of calls, with failing and panicking plug-ins, or the same calls for other days and arguments in hundreds of rounds, whose basic blocks are counted call by call; non-trivial if a call was made",
        "C10" => "a run is a seeded sequence of rolls with calendar outages, range ends and extreme periods; non-trivial if a roll was made",
        _ => "a run is a seeded history of calls with failing, panicking or changing plug-ins; non-trivial if a fault fired, the data changed between calls or the schedule switched",
    }
}
/// determinism: the same seeds twice, compared run by run; prints the first difference
fn selftest(a: &[String]) -> i32 {
    setup(true);
    let unis: u64 = opt(a, "--universes").and_then(|x| x.parse().ok()).unwrap_or(12);
    let mut bad = 0;
    for prop in props::PROPS {
        if opt(a, "--only").is_some_and(|o| o != prop) {
            continue;
        }
        let mut runs = 0;
        let mut viols = 0;
        for idx in 0..if props::is_h(prop) { unis } else { unis * 30 } {
            let useed = props::uni_seed(prop, 99, idx);
            let u = install(props::make_uni(prop, useed));
            let mut bases = Bases::new(u);
            for k in 0..props::per_uni(prop).min(10) {
                let rs = derive(useed, k, 77);
                let run = if props::is_h(prop) { props::gen_run_h(prop, u, useed, rs, &mut bases) } else { props::gen_run_p(prop, u, useed, rs) };
                if run.tasks.iter().all(Vec::is_empty) {
                    continue;
                }
                let t0 = rt::raw_now();
                let x = execute(&run, &bases.v, false, true);
                let dt = (rt::raw_now() - t0) / 1_000_000;
                if dt > 700 {
                    println!("{prop} universe {idx} run {k} took {dt} ms, {} steps, policy {:?}", x.stats.get(11).unwrap_or(&0), run.policy);
                    if a.iter().any(|x| x == "-v") {
                        for t in x.trace.iter().take(60) {
                            println!("   {t}");
                        }
                    }
                }
                let y = execute(&run, &bases.v, false, true);
                runs += 1;
                if let Some(h) = &x.harness {
                    println!("{prop} universe {idx} run {k}: harness error {h}");
                    bad += 1;
                }
                viols += u64::from(x.viol.is_some());
                if x.hist != y.hist || x.viol != y.viol || x.plan != y.plan || x.trace != y.trace || x.stats != y.stats {
                    println!("{prop} universe {idx} run {k} differs: {:?} {:?} hist {} plan {} trace {} stats {}", x.viol, y.viol, x.hist == y.hist, x.plan == y.plan, x.trace == y.trace, x.stats == y.stats);
                    if x.stats != y.stats {
                        println!("  {:?}\n  {:?}", x.stats, y.stats);
                    }
                    if let Some((p, q)) = x.trace.iter().zip(&y.trace).find(|(p, q)| p != q) {
                        println!("  {p}\n  {q}");
                    }
                    bad += 1;
                }
                // an explicit schedule recorded from a random one gives the same execution
                if matches!(run.policy, rt::Policy::Random { .. }) && !x.truncated {
                    let mut e = run.clone();
                    e.policy = rt::Policy::Explicit;
                    e.plan = x.plan.clone();
                    let z = execute(&e, &bases.v, false, true);
                    if x.trace != z.trace || x.viol != z.viol {
                        println!("{prop} universe {idx} run {k}: explicit schedule differs ({} points): {:?} {:?}", x.plan.len(), x.viol, z.viol);
                        bad += 1;
                    }
                }
            }
            uninstall(u);
        }
        println!("{prop}: {runs} runs executed twice, {viols} with violations");
    }
    println!("{}", if bad == 0 { "selftest ok" } else { "selftest FAILED" });
    i32::from(bad > 0)
}
