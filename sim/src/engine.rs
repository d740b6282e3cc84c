//! Runs: one forked process each, reporting through shared memory; baselines; statistics.
#![allow(static_mut_refs, dead_code)]
use crate::cx::{self, Act, Cx, Item};
use crate::exec;
use crate::json::J;
use crate::obj::{Out, INJECTED};
use crate::oracle;
use crate::rng::mix;
use crate::rt::{self, Amb, Policy, Pre, CANON};
use crate::uni::{Op, Spec, Uni};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub uid: u32,
    /// position in the global order of a sequential history
    pub seq: u32,
    pub op: usize,
    pub script: Vec<Item>,
    pub drops: Vec<usize>,
    pub amb: Option<Amb>,
    pub junk: u32,
}
#[derive(Clone, Debug)]
pub struct Run {
    pub prop: String,
    pub useed: u64,
    pub seed: u64,
    pub prebuild: Vec<usize>,
    pub tasks: Vec<Vec<Step>>,
    pub nested: Vec<Step>,
    pub policy: Policy,
    pub plan: Vec<Pre>,
}
#[derive(Clone, Debug, Default)]
pub struct Base {
    pub text: String,
    pub steps: u64,
    pub counts: [u64; cx::NSEAM],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub task: i64,
    pub uid: u32,
    pub msg: String,
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<Viol>,
    pub plan: Vec<Pre>,
    pub truncated: bool,
    pub hist: u64,
    pub stats: Vec<u64>,
    pub faults: BTreeMap<String, u64>,
    pub callbacks: [u64; cx::NSEAM],
    pub trace: Vec<String>,
    pub base: Option<Base>,
    pub harness: Option<String>,
    /// the largest part of its memory budget that a call used (C16)
    pub share: f64,
}
pub const STATS: [&str; 13] =
    ["switches", "preemptions", "sync_primitive_visits", "clock_reads", "entropy_reads", "env_reads", "file_opens", "futex_waits", "library_threads", "sleeps", "cpu_count_reads", "sim_steps", "calls"];

// ---- shared report buffer --------------------------------------------------------------------------------------
const BUF: usize = 8 << 20;
static mut SHM: *mut u8 = std::ptr::null_mut();
static mut TRACE: bool = false;
pub fn shm_init() {
    unsafe {
        if SHM.is_null() {
            let p = libc::mmap(std::ptr::null_mut(), BUF, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            SHM = p.cast();
            let n = rt::guard_count() as usize + 2;
            let c = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(c != libc::MAP_FAILED);
            COV = c.cast();
            COV_N = n;
        }
    }
}
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut COV_N: usize = 0;
pub static mut HOT: Vec<u8> = vec![];

pub fn emit(s: &str) {
    unsafe {
        let used = *(SHM.cast::<u32>()) as usize;
        let b = s.as_bytes();
        // keep room for the verdict
        let lim = if s.starts_with('P') || s.starts_with('T') { BUF - 65_536 } else { BUF - 16 };
        if 4 + used + b.len() + 1 > lim {
            *(SHM.add(BUF - 1)) = 1;
            return;
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), SHM.add(4 + used), b.len());
        *SHM.add(4 + used + b.len()) = b'\n';
        *(SHM.cast::<u32>()) = (used + b.len() + 1) as u32;
    }
}
fn buf_reset() {
    unsafe {
        *(SHM.cast::<u32>()) = 0;
        *(SHM.add(BUF - 1)) = 0;
    }
}
fn buf_text() -> (String, bool) {
    unsafe {
        let used = *(SHM.cast::<u32>()) as usize;
        let t = String::from_utf8_lossy(std::slice::from_raw_parts(SHM.add(4), used)).into_owned();
        (t, *(SHM.add(BUF - 1)) != 0)
    }
}

// ---- inside the child ----------------------------------------------------------------------------------------
static mut RUN: *const Run = std::ptr::null();
static mut BASES: *const Vec<Option<Base>> = std::ptr::null();
static mut CALLS: u64 = 0;
static mut BASELINE: bool = false;

fn run() -> &'static Run {
    unsafe { &*RUN }
}
fn expected(op: usize) -> Option<&'static str> {
    unsafe { (&*BASES).get(op).and_then(|b| b.as_ref()).map(|b| b.text.as_str()) }
}
pub fn is_h(prop: &str) -> bool {
    matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C12" | "C14" | "C16" | "C17" | "C18")
}
fn clip(s: &str) -> String {
    let s = s.replace('\n', " ");
    if s.len() > 900 {
        let mut e = 900;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
fn judge(st: &Step, c: &Cx, out: &Out, nested: bool) {
    if unsafe { exec::HARNESS_PANIC } {
        emit(&format!("H panic in harness code during {:?}", exec::uni().ops[st.op]));
        emit("END");
        unsafe { libc::_exit(0) }
    }
    if unsafe { TRACE } {
        let w = rt::world().unwrap();
        let mut extra = String::new();
        for f in &c.fired {
            extra.push_str(&format!(" [{} {}]", cx::SEAM_NAMES[f.seam as usize], f.act.name()));
        }
        emit(&format!("T {}{} uid {} {:?} -> {}{extra}", if nested { "nested " } else { "" }, w.cur_main(), st.uid, exec::uni().ops[st.op], clip(&out.s())));
    }
    let prop = run().prop.as_str();
    // what the calls of C12 answer is settled by the other properties
    if unsafe { BASELINE } || matches!(prop, "C12" | "C17" | "C18") {
        return;
    }
    let got = out.s();
    if is_h(prop) {
        let Some(exp) = expected(st.op) else { return };
        let panicked = c.fired.iter().any(|f| f.act.panics());
        if panicked {
            if *out != Out::Panic(INJECTED.into()) {
                rt::die("swallowed", &format!("{:?}: the panic of a plug-in did not reach the caller, who got: {}", exec::uni().ops[st.op], clip(&got)));
            }
        } else if got != exp {
            let class = match out {
                Out::Panic(_) => "panic",
                _ => "answer",
            };
            rt::die(class, &format!("{:?}: alone in a fresh process: {} | here: {}", exec::uni().ops[st.op], clip(exp), clip(&got)));
        }
    } else if let Some((class, msg)) = oracle::check(prop, &exec::uni().ops[st.op], c, out) {
        rt::die(&class, &format!("{:?}: {}", exec::uni().ops[st.op], clip(&msg)));
    }
}
/// C16: the stack of a thread
const SMALL_STACK: usize = 128 << 10;
/// C16: what one call may take on the heap: an amount for every call, an amount per point, pillar or payment, and one per day passed over
fn mem_budget(o: usize) -> i64 {
    let u = exec::uni();
    let size = |s: &Spec| match s {
        Spec::Interp { pre, pts, .. } => pts.len() + pre.as_ref().map_or(0, Vec::len),
        Spec::Curve { mats, .. } => mats.len(),
        Spec::Bond { issue, mat, pen, .. } => ((mat.max(pen) - issue).max(0) / 180) as usize + 4,
    };
    let mut n: usize = u.needs(o).iter().map(|s| size(&u.specs[*s])).sum();
    // the days a call passes over: a stretch counted, or a closure rolled across
    let mut days = 0;
    let op = match &u.ops[o] {
        Op::Repeat { of, .. } => &u.ops[*of],
        op => op,
    };
    match op {
        Op::Build { s, .. } => n += size(&u.specs[*s]),
        Op::Refit { first, then, .. } => n += first.len() + then.len(),
        Op::Bdb { a, b, .. } => days = (a - b).abs() + 2,
        Op::Roll { .. } | Op::CalDay { .. } | Op::CalBurst { .. } | Op::NewCal { .. } => days = 65_000,
        _ => {}
    }
    16 * 1024 + 512 * n as i64 + 128 * days
}
/// C18: the work of one call, in basic blocks of the library
fn cost(st: &Step, c: &Cx, steps: u64) {
    let op = &exec::uni().ops[st.op];
    let later = unsafe { LATER };
    let asked: u64 = c.counts.iter().sum();
    let most = work(op, asked, later.unsigned_abs());
    if steps > most {
        rt::die("work", &format!("{}: {steps} blocks executed, which is more than {most}", clip(&format!("{op:?}"))));
    }
    unsafe { SHARE = SHARE.max(steps as f64 / most as f64) };
    // a call with a fault takes another path than the same call alone
    if later == 0 && c.fired.is_empty() {
        let alone = unsafe { (&*BASES).get(st.op).and_then(|b| b.as_ref()) }.map_or(0, |b| b.steps);
        if steps > alone + alone / 2 + 500 {
            rt::die("history", &format!("{}: {steps} blocks executed here, {alone} alone in a fresh process", clip(&format!("{op:?}"))));
        }
        if let Some((small, _, ratio)) = exec::uni().pairs.iter().find(|p| p.1 == st.op) {
            if let Some(b) = unsafe { (&*BASES).get(*small).and_then(|b| b.as_ref()) } {
                let most = b.steps * ratio * 3 / 2 + 2_000;
                if steps > most {
                    rt::die("growth", &format!("{}: {steps} blocks executed, and {} on something of a {ratio}th the size", clip(&format!("{op:?}")), b.steps));
                }
                unsafe { SHARE3 = SHARE3.max(steps as f64 / most as f64) };
            }
        }
        unsafe { SHARE2 = SHARE2.max(steps as f64 / (alone + alone / 2 + 500) as f64) };
    }
    unsafe { LIMITED += 1 };
}
/// the most blocks a call may execute, given the points, pillars, flows and days it has to look at
fn work(op: &Op, asked: u64, later: u64) -> u64 {
    let u = exec::uni();
    let size = |s: usize| match &u.specs[s] {
        Spec::Interp { pre, pts, .. } => pts.len() + pre.as_ref().map_or(0, Vec::len),
        Spec::Curve { mats, .. } => mats.len(),
        Spec::Bond { issue, mat, pen, .. } => ((mat.max(pen) - issue).max(0) / 180) as usize + 4,
    } as u64;
    let query = |s: usize| 40_000 + 300 * size(s);
    let price = |b: usize, c: usize| 40_000 + size(b) * (36_000 + 300 * size(c));
    let day = 8_000;
    match op {
        Op::Val { s, .. } => query(*s),
        Op::ValBurst { s, n, .. } => query(*s) * (*n as u64 + 1),
        Op::Df { s, .. } => 2 * query(*s),
        Op::DfBurst { s, n, .. } => 2 * query(*s) * (*n as u64 + 1),
        Op::Pv { b, c, .. } => price(*b, *c),
        Op::PvBurst { b, c, n, .. } => price(*b, *c) * (*n as u64 + 1),
        Op::Build { s, c, at } => {
            let each = match &u.specs[*s] {
                Spec::Bond { .. } => price(*s, *c),
                _ => 2 * query(*s),
            };
            40_000 + 3_000 * size(*s) + each * at.len() as u64
        }
        Op::Refit { first, then, ts, .. } => {
            let n = (first.len() + then.len()) as u64;
            40_000 + 3_000 * n + (40_000 + 300 * n) * ts.len() as u64
        }
        Op::Roll { .. } | Op::CalDay { .. } => 40 * day + day * asked,
        Op::NewCal { n, .. } => (40 * day) * (*n as u64 + 40) + day * asked,
        Op::CalBurst { n, .. } => (40 * day) * (*n as u64 + 1) + day * asked,
        Op::Bdb { a, b, .. } => 40 * day + day * ((a - b).unsigned_abs() + later),
        Op::Repeat { of, n } => work(&u.ops[*of], asked, later).saturating_mul(*n as u64 + 1),
        _ => 40_000,
    }
}
static mut LIMITED: u64 = 0;
static mut SHARE: f64 = 0.0;
static mut SHARE2: f64 = 0.0;
static mut SHARE3: f64 = 0.0;
/// leaks and frees some blocks of the library's heap: everything allocated later sits elsewhere
fn junk(seed: u32) {
    let mut x = u64::from(seed);
    if seed != 0 {
        for _ in 0..(seed % 7 + 1) {
            x = mix(x);
            rt::heap_junk((x % 5000) as usize + 1, x & 64 == 0);
        }
    }
    rt::heap_skew(seed);
}
fn do_step(st: &Step) {
    // the objects of the call are built in its surroundings, too
    if let Some(a) = &st.amb {
        rt::surround(a);
    }
    junk(st.junk);
    for d in &st.drops {
        exec::drop_obj(*d);
    }
    for n in exec::uni().needs(st.op) {
        exec::ensure(n);
    }
    let h = is_h(&run().prop);
    let mut c = Cx::new(st.uid, st.script.clone(), 0);
    c.record = !h;
    oracle::before(&run().prop, &exec::uni().ops[st.op], &mut c);
    rt::begin_op(st.uid);
    let mut out = Out::Unit;
    let later = unsafe { (LATER > 0).then(|| exec::later(&exec::uni().ops[st.op], LATER)) };
    let mut used0 = 0;
    let tight = run().prop == "C16" && !unsafe { BASELINE };
    if tight {
        let b = mem_budget(st.op);
        rt::heap_cap(Some(b));
        used0 = rt::heap_live()[1];
    }
    exec::shift(unsafe { LATER });
    let moved0 = rt::moved();
    rt::lower_stack(st.junk >> 3 & 31, &mut || out = exec::call(later.as_ref().unwrap_or(&exec::uni().ops[st.op]), &mut c));
    if tight {
        let used = rt::heap_peak() - used0;
        rt::heap_cap(None);
        unsafe {
            LIMITED += 1;
            SHARE = SHARE.max(used as f64 / mem_budget(st.op) as f64);
        }
    }
    // blocks of memory moved, filled or compared count as work, 64 bytes as one block
    let steps = rt::end_op_steps() + if run().prop == "C18" { (rt::moved() - moved0) / 64 } else { 0 };
    if run().prop == "C17" && !unsafe { BASELINE } {
        rt::leftovers();
    }
    if run().prop == "C18" && !unsafe { BASELINE } {
        cost(st, &c, steps);
    }
    rt::note(crate::rng::fnv(out.s().as_bytes()) ^ st.op as u64);
    unsafe { CALLS += 1 };
    if unsafe { BASELINE } {
        emit(&format!("R {steps} {} {}", c.counts.iter().map(u64::to_string).collect::<Vec<_>>().join(" "), out.s().replace('\n', " ")));
    }
    judge(st, &c, &out, false);
    rt::end_op();
}
fn do_nested(i: i64) {
    let Some(st) = run().nested.get(i as usize) else { return };
    let depth = cx::cur().map_or(0, |c| c.depth);
    if depth >= 80 {
        return;
    }
    // needs exist already (prebuild)
    let mut c = Cx::new(st.uid, st.script.clone(), depth + 1);
    c.record = !is_h(&run().prop);
    oracle::before(&run().prop, &exec::uni().ops[st.op], &mut c);
    let out = exec::call(&exec::uni().ops[st.op], &mut c);
    unsafe { CALLS += 1 };
    judge(st, &c, &out, true);
}
/// what the process holds once every object is dropped
fn holdings() -> [i64; 3] {
    let v = rt::heap_live();
    [v[0], v[1], unsafe { crate::plug::ALIVE }]
}
/// by how much the dates asked about have moved (C12)
static mut LATER: i64 = 0;
const HELD: [&str; 3] = ["blocks of memory", "bytes of memory", "interpolators"];
/// C12: the same calls again and again, all objects dropped after each round; what is held must stop growing
fn rounds(steps: &'static [Step]) {
    let mut held: Vec<[i64; 3]> = vec![holdings()];
    let (keep, vary) = (run().seed & 1 != 0, run().seed & 2 != 0);
    let mut round = || {
        for s in steps {
            do_step(s);
        }
        if !keep {
            for i in 0..exec::uni().specs.len() {
                exec::drop_obj(i);
            }
        }
        if vary && run().prop == "C12" {
            unsafe { LATER += 1 };
        }
        let h = holdings();
        rt::note(crate::rng::fnv(format!("{h:?}").as_bytes()));
        if h[2] < 0 {
            rt::die("double", &format!("{} interpolators were dropped more often than they were made", -h[2]));
        }
        held.push(h);
        held.clone()
    };
    let mut h = vec![];
    for _ in 0..8 {
        h = round();
    }
    if run().prop == "C18" {
        for i in 1..1200 {
            if rt::world().unwrap().gsteps > 20_000_000 {
                break;
            }
            // now and then, and at last, the calls the history began with
            if vary {
                unsafe { LATER = if i % 32 == 0 { 0 } else { i } };
            }
            round();
        }
        unsafe { LATER = 0 };
        round();
        return;
    }
    let grew = |h: &[[i64; 3]], k: usize, n: usize| h[n][k] > h[n / 2][k] && h[n / 2][k] > h[n / 4][k] && h[n / 4][k] > h[n / 8][k];
    let mut n = 8;
    while (0..3).any(|k| h[n][k] > h[if n == 8 { 2 } else { n / 2 }][k]) {
        let per = rt::world().unwrap().gsteps / n as u64 + 1;
        if n >= 4096 || n >= 128 && per * (2 * n as u64) > 120_000_000 {
            let Some(k) = (0..3).find(|k| grew(&h, *k, n)) else { return };
            let t: Vec<String> = [1, n / 8, n / 4, n / 2, n].iter().map(|i| format!("{} after {i}", h[*i][k])).collect();
            rt::die("leak", &format!("{} call(s){} over and over, {}: {} held: {} rounds", steps.len(), if vary { " about later and later dates" } else { "" }, if keep { "on the same objects" } else { "every object dropped each time" }, HELD[k], t.join(", ")));
        }
        for _ in 0..n {
            h = round();
        }
        n *= 2;
    }
}
fn child(r: &Run, bases: &Vec<Option<Base>>, baseline: bool) -> ! {
    unsafe {
        RUN = r;
        BASES = bases;
        BASELINE = baseline;
        crate::obj::FIT_ONCE = baseline && r.prop != "C18";
        cx::NESTED = Some(do_nested);
        if r.prop == "C10" {
            // what std::thread::spawn gives
            rt::STACK = 2 << 20;
        }
        if r.prop == "C16" && !baseline {
            rt::STACK = SMALL_STACK;
        }
        libc::alarm(90);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
        // what a crashing library prints is not part of the report
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        rt::install_cov(COV, if HOT.is_empty() { std::ptr::null_mut() } else { HOT.as_mut_ptr() });
    }
    exec::hook();
    unsafe {
        rt::EFFECTS = r.prop == "C17" && !baseline;
        exec::HOOK_WATCHED = rt::EFFECTS && matches!(r.policy, Policy::Seq);
    }
    let cap = match r.prop.as_str() {
        _ if baseline => 80_000_000,
        // a call that spins while another one is stalled is found out soon
        "C14" => 20_000_000 + 3 * r.tasks.iter().flatten().map(|s| bases.get(s.op).and_then(|b| b.as_ref()).map_or(0, |b| b.steps)).sum::<u64>(),
        _ => 250_000_000,
    };
    rt::init(r.policy.clone(), &r.plan, cap, CANON, emit);
    let first = r.tasks.iter().flatten().next();
    rt::surround(first.and_then(|s| s.amb.as_ref()).unwrap_or(&CANON));
    rt::heap_skew(first.map_or(0, |s| s.junk));
    let mut pre = r.prebuild.clone();
    if baseline {
        pre.clear();
    }
    if !pre.is_empty() {
        rt::run_tasks(
            vec![(
                Box::new(move || {
                    rt::begin_op(u32::MAX - 1);
                    for p in pre {
                        exec::ensure(p);
                    }
                    rt::end_op_steps();
                }),
                None,
            )],
            &[],
            true,
        );
    }
    let mut bodies: Vec<rt::Body> = vec![];
    for t in 0..r.tasks.len() {
        let early = r.tasks[t].len() - late_steps(r, t);
        let last: Option<Box<dyn FnOnce() + Send>> = if early == r.tasks[t].len() {
            None
        } else {
            Some(Box::new(move || {
                for s in &run().tasks[t][early..] {
                    do_step(s);
                }
            }))
        };
        let body = Box::new(move || {
            if (run().prop == "C12" || run().prop == "C18" && run().seed & 12 == 0) && !unsafe { BASELINE } {
                rounds(&run().tasks[t]);
                return;
            }
            for s in &run().tasks[t][..early] {
                do_step(s);
            }
        });
        bodies.push((body, last));
    }
    if matches!(r.policy, Policy::Seq) && r.tasks.len() > 1 {
        let mut o: Vec<(u32, usize)> = r.tasks.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |s| (s.seq, t))).collect();
        o.sort_unstable();
        rt::world().unwrap().order = o.into_iter().map(|x| x.1).collect();
    }
    if !bodies.is_empty() {
        let amb: Vec<i64> = r.tasks.iter().map(|t| t.first().and_then(|s| s.amb.as_ref()).map_or(0, |a| a.env)).collect();
        rt::run_tasks(bodies, &amb, false);
    }
    let w = rt::world().unwrap();
    let c = &w.counts;
    let v = [c.switches, c.preempts, c.hot_hits, c.clock_reads, c.entropy_reads, c.env_reads, c.file_opens, c.futex_waits, c.lib_threads, c.sleeps, c.cpu_reads, w.gsteps, unsafe { CALLS }];
    emit(&format!("S {} {}", w.hist, v.iter().map(u64::to_string).collect::<Vec<_>>().join(" ")));
    unsafe {
        for (i, f) in cx::FAULTS.iter().enumerate() {
            for (j, n) in f.iter().enumerate() {
                if *n > 0 {
                    emit(&format!("F {} {} {n}", cx::SEAM_NAMES[i], Act::dec([j as i64, 0, 0]).name()));
                }
            }
        }
        if LIMITED > 0 {
            emit(&format!("F {} {LIMITED}", if r.prop == "C16" { "memory limit" } else { "work limit" }));
            emit(&format!("U {}", SHARE.max(SHARE2).max(SHARE3)));
        }
        emit(&format!("C {}", cx::CALLBACKS.iter().map(u64::to_string).collect::<Vec<_>>().join(" ")));
        emit("END");
        libc::_exit(0)
    }
}
/// how many of the last calls of a thread are made while its thread locals are being destroyed
pub fn late_steps(r: &Run, t: usize) -> usize {
    let x = crate::rng::derive(r.seed, t as u64, 0x1a7e);
    if unsafe { BASELINE } || !matches!(r.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C17") || x % 3 != 0 {
        return 0;
    }
    ((x >> 8) % 3 + 1).min(r.tasks[t].len().saturating_sub(1) as u64) as usize
}
// ---- parent --------------------------------------------------------------------------------------------------
pub fn execute(r: &Run, bases: &Vec<Option<Base>>, baseline: bool, trace: bool) -> Report {
    buf_reset();
    unsafe { TRACE = trace };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child(r, bases, baseline);
    }
    let mut status = 0;
    unsafe { while libc::waitpid(pid, &mut status, 0) < 0 {} }
    let (t, trunc) = buf_text();
    let mut rep = Report { truncated: trunc, ..Default::default() };
    let mut ended = false;
    let mut refused = None;
    for l in t.lines() {
        let (k, rest) = l.split_at(1.min(l.len()));
        let rest = rest.trim_start();
        match k {
            "P" => {
                let v: Vec<i64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                if v.len() == 4 {
                    rep.plan.push(Pre { task: v[0] as u32, op: v[1] as u32, step: v[2], to: v[3] as u32 });
                }
            }
            "V" => {
                let mut p = rest.splitn(4, ' ');
                rep.viol = Some(Viol {
                    class: p.next().unwrap_or("").into(),
                    task: p.next().and_then(|x| x.parse().ok()).unwrap_or(-1),
                    uid: p.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                    msg: p.next().unwrap_or("").into(),
                });
            }
            "S" => {
                let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                rep.hist = v[0];
                rep.stats = v[1..].to_vec();
            }
            "F" => {
                let mut p = rest.rsplitn(2, ' ');
                let n: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                rep.faults.insert(p.next().unwrap_or("").replace(' ', ":"), n);
            }
            "C" => {
                for (i, x) in rest.split(' ').enumerate().take(cx::NSEAM) {
                    rep.callbacks[i] = x.parse().unwrap_or(0);
                }
            }
            "T" => rep.trace.push(rest.into()),
            "R" => {
                let mut p = rest.splitn(cx::NSEAM + 2, ' ');
                let steps = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let mut counts = [0; cx::NSEAM];
                for c in &mut counts {
                    *c = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                }
                rep.base = Some(Base { text: p.next().unwrap_or("").into(), steps, counts });
            }
            "H" => rep.harness = Some(rest.into()),
            "M" => refused = Some(rest.replacen(' ', " more bytes refused with ", 1)),
            "U" => rep.share = rest.parse().unwrap_or(0.0),
            "E" => ended = true,
            _ => {}
        }
    }
    if !ended && rep.viol.is_none() {
        let (class, msg) = if libc::WIFSIGNALED(status) {
            let s = libc::WTERMSIG(status);
            if s == libc::SIGALRM {
                ("hang", "the run did not finish in 90 s of real time".to_string())
            } else {
                match refused {
                    Some(m) => ("memory", format!("the process died from signal {s}: {m}")),
                    None => ("crash", format!("the process died from signal {s}{}", if r.prop == "C16" { " on a stack of 128 KiB" } else { "" })),
                }
            }
        } else {
            ("crash", format!("the process exited with status {}", libc::WEXITSTATUS(status)))
        };
        rep.viol = Some(Viol { class: class.into(), task: -1, uid: 0, msg });
    }
    rep
}

pub struct Bases {
    pub v: Vec<Option<Base>>,
    pub bad: Option<(usize, Viol)>,
    pub made: u64,
    pub nanos: i64,
}
impl Bases {
    pub fn new(u: &Uni) -> Bases {
        Bases { v: vec![None; u.ops.len()], bad: None, made: 0, nanos: 0 }
    }
    pub fn get(&mut self, prop: &str, op: usize) -> Base {
        if self.v[op].is_none() {
            let r = Run { prop: prop.into(), useed: 0, seed: 0, prebuild: vec![], tasks: vec![vec![Step { op, ..Default::default() }]], nested: vec![], policy: Policy::Seq, plan: vec![] };
            let t0 = rt::raw_now();
            let rep = execute(&r, &vec![], true, false);
            self.nanos += rt::raw_now() - t0;
            self.made += 1;
            if let Some(h) = rep.harness {
                eprintln!("harness error: {h}");
                std::process::exit(2);
            }
            if let Some(v) = rep.viol {
                if self.bad.is_none() {
                    self.bad = Some((op, v));
                }
            }
            self.v[op] = Some(rep.base.unwrap_or_default());
        }
        self.v[op].clone().unwrap()
    }
}

// ---- replay files ----------------------------------------------------------------------------------------------
fn amb_j(a: &Amb) -> J {
    J::Arr([a.real, a.mono, a.entropy as i64, a.env, a.file_fail, a.cpus, a.pid].iter().map(|x| J::Int(*x)).collect())
}
fn step_j(s: &Step, u: &Uni) -> J {
    let mut o = vec![
        ("uid".into(), J::Int(i64::from(s.uid))),
        ("seq".into(), J::Int(i64::from(s.seq))),
        ("op".into(), J::Int(s.op as i64)),
        ("call".into(), J::Str(format!("{:?}", u.ops[s.op]))),
        (
            "script".into(),
            J::Arr(
                s.script
                    .iter()
                    .map(|i| {
                        let e = i.act.enc();
                        J::Arr(vec![J::Int(i.seam as i64), J::Int(i.k as i64), J::Int(e[0]), J::Int(e[1]), J::Int(e[2])])
                    })
                    .collect(),
            ),
        ),
        ("faults".into(), J::Arr(s.script.iter().map(|i| J::Str(format!("{:?} at {} {}", i.act, cx::SEAM_NAMES[i.seam as usize], i.k))).collect())),
    ];
    if !s.drops.is_empty() {
        o.push(("drops".into(), J::Arr(s.drops.iter().map(|d| J::Int(*d as i64)).collect())));
    }
    if let Some(a) = &s.amb {
        o.push(("amb".into(), amb_j(a)));
    }
    if s.junk > 0 {
        o.push(("junk".into(), J::Int(i64::from(s.junk))));
    }
    J::Obj(o)
}
fn ints(j: &J) -> Vec<i64> {
    j.arr().iter().map(J::int).collect()
}
fn step_of(j: &J) -> Step {
    let mut s = Step { uid: j.get("uid").int() as u32, seq: j.get("seq").int() as u32, op: j.get("op").int() as usize, ..Default::default() };
    for i in j.get("script").arr() {
        let x = ints(i);
        s.script.push(Item { seam: cx::seam_from(x[0]), k: x[1] as u64, act: Act::dec([x[2], x[3], x[4]]) });
    }
    s.drops = ints(j.get("drops")).iter().map(|x| *x as usize).collect();
    let a = ints(j.get("amb"));
    if a.len() == 7 {
        s.amb = Some(Amb { real: a[0], mono: a[1], entropy: a[2] as u64, env: a[3], file_fail: a[4], cpus: a[5], pid: a[6] });
    }
    s.junk = j.get("junk").int() as u32;
    s
}
pub fn run_json(r: &Run, u: &Uni, v: &Viol, trace: &[String]) -> J {
    let pol = match r.policy {
        Policy::Seq => J::Arr(vec![J::Int(0)]),
        Policy::Explicit => J::Arr(vec![J::Int(1)]),
        Policy::Random { seed, mean, seam_pct, hot_pct } => J::Arr(vec![J::Int(2), J::Int(seed as i64), J::Int(mean as i64), J::Int(seam_pct as i64), J::Int(hot_pct as i64)]),
    };
    J::Obj(vec![
        ("format".into(), J::Int(1)),
        ("property".into(), J::Str(r.prop.clone())),
        ("violation".into(), J::Obj(vec![
            ("class".into(), J::Str(v.class.clone())),
            ("task".into(), J::Int(v.task)),
            ("uid".into(), J::Int(i64::from(v.uid))),
            ("message".into(), J::Str(v.msg.clone())),
        ])),
        ("universe_seed".into(), J::Str(r.useed.to_string())),
        ("run_seed".into(), J::Str(r.seed.to_string())),
        ("objects".into(), J::Arr(u.specs.iter().enumerate().map(|(i, s)| J::Str(format!("{i}: {s:?}"))).collect())),
        ("prebuild".into(), J::Arr(r.prebuild.iter().map(|x| J::Int(*x as i64)).collect())),
        ("policy".into(), pol),
        ("schedule".into(), J::Arr(r.plan.iter().map(|p| J::Arr(vec![J::Int(i64::from(p.task)), J::Int(i64::from(p.op)), J::Int(p.step), J::Int(i64::from(p.to))])).collect())),
        ("tasks".into(), J::Arr(r.tasks.iter().map(|t| J::Arr(t.iter().map(|s| step_j(s, u)).collect())).collect())),
        ("nested".into(), J::Arr(r.nested.iter().map(|s| step_j(s, u)).collect())),
        ("history".into(), J::Arr(trace.iter().map(|t| J::Str(t.clone())).collect())),
    ])
}
pub fn run_of(j: &J) -> (Run, Viol) {
    let pol = ints(j.get("policy"));
    let policy = match pol[0] {
        0 => Policy::Seq,
        1 => Policy::Explicit,
        _ => Policy::Random { seed: pol[1] as u64, mean: pol[2] as u64, seam_pct: pol[3] as u64, hot_pct: pol[4] as u64 },
    };
    let vj = j.get("violation");
    let v = Viol { class: vj.get("class").str().into(), task: vj.get("task").int(), uid: vj.get("uid").int() as u32, msg: vj.get("message").str().into() };
    let plan = j.get("schedule").arr().iter().map(|p| {
        let x = ints(p);
        Pre { task: x[0] as u32, op: x[1] as u32, step: x[2], to: x[3] as u32 }
    });
    let run = Run {
        prop: j.get("property").str().into(),
        useed: j.get("universe_seed").str().parse().unwrap_or(0),
        seed: j.get("run_seed").str().parse().unwrap_or(0),
        prebuild: ints(j.get("prebuild")).iter().map(|x| *x as usize).collect(),
        tasks: j.get("tasks").arr().iter().map(|t| t.arr().iter().map(step_of).collect()).collect(),
        nested: j.get("nested").arr().iter().map(step_of).collect(),
        policy,
        plan: plan.collect(),
    };
    (run, v)
}
