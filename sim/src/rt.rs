//! The scheduler: real threads, exactly one of which runs at any time; who runs next, and when the running one
//! is preempted, is decided here from the run's seed or from an explicit schedule.
#![allow(static_mut_refs, dead_code)]
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

extern "C" {
    fn sim_get_active() -> c_int;
    fn sim_set_active(v: c_int);
    fn sim_get_steps() -> u64;
    fn sim_set_steps(v: u64);
    fn sim_set_next(v: u64);
    fn sim_get_next() -> u64;
    fn sim_get_tid() -> c_int;
    fn sim_set_tid(v: c_int);
    fn sim_get_ctx() -> *mut c_void;
    fn sim_set_ctx(v: *mut c_void);
    fn sim_set_cov(cov: *mut u8, hot: *mut u8);
    fn sim_set_hot_on(v: c_int);
    fn sim_guard_count() -> u32;
    fn sim_pcs(end: c_int) -> *const usize;
    fn sim_get_moved() -> u64;
    fn sim_raw_now() -> c_long;
    fn sim_junk(n: usize, free: c_int);
    fn sim_set_skew(v: u32);
    fn sim_arena_live(v: *mut i64);
    fn sim_arena_cap(more: i64);
    fn sim_arena_peak() -> i64;
    fn sim_set_args(v: *const *mut c_char, n: c_int);
    fn sim_set_environ(v: *mut *mut c_char);
}
/// Sets the surroundings of the library from here on.
pub fn surround(a: &Amb) {
    let w = w();
    w.amb = a.clone();
    w.ent = a.entropy;
    let mut keep = |s: String| {
        let c = std::ffi::CString::new(s.replace('\0', "")).unwrap_or_default();
        let p = c.as_ptr().cast_mut();
        w.env_store.push(c);
        p
    };
    let (mut args, mut vars) = (vec![keep("sim".into())], vec![]);
    if a.env != 0 {
        for i in 0..12u64 {
            let d = |k: u64| crate::dict::value(crate::rng::derive(a.env as u64, i, k)).unwrap_or_default();
            if i < 2 {
                args.push(keep(d(13)));
            }
            let n = d(17);
            if !n.is_empty() && !n.contains('=') {
                vars.push(keep(format!("{n}={}", d(19))));
            }
        }
    }
    vars.push(std::ptr::null_mut());
    unsafe { sim_set_args(args.as_ptr(), args.len() as c_int) };
    w.environ = vars;
    unsafe { sim_set_environ(w.environ.as_mut_ptr()) };
}
/// blocks and bytes the library has taken and not given back
pub fn heap_live() -> [i64; 2] {
    let mut v = [0; 2];
    unsafe { sim_arena_live(v.as_mut_ptr()) }
    v
}
/// From here on, library code may use this many bytes more than it does now.
pub fn heap_cap(more: Option<i64>) {
    unsafe { sim_arena_cap(more.unwrap_or(-1)) }
}
/// the most bytes in use since the last `heap_cap`
pub fn heap_peak() -> i64 {
    unsafe { sim_arena_peak() }
}
pub static mut REFUSED: u64 = 0;
#[no_mangle]
pub extern "C" fn sim_refused(n: usize, live: i64) {
    unsafe { REFUSED += 1 };
    if let Some(w) = world() {
        (w.emit)(&format!("M {n} {live} in use, in call {}", w.tasks.get(w.cur).map_or(0, |t| t.op)));
    }
}
pub fn heap_skew(v: u32) {
    unsafe { sim_set_skew(v) }
}
/// Calls `f` on a stack that starts `n` small frames lower.
#[inline(never)]
pub fn lower_stack(n: u32, f: &mut dyn FnMut()) {
    let pad = [n as u8; 24];
    if std::hint::black_box(n) == 0 {
        f();
    } else {
        lower_stack(n - 1, f);
    }
    std::hint::black_box(&pad);
}

/// bytes the library has moved, filled or compared in blocks, on this thread
pub fn moved() -> u64 {
    unsafe { sim_get_moved() }
}
pub fn raw_now() -> i64 {
    unsafe { sim_raw_now() }
}
pub fn ctx() -> *mut c_void {
    unsafe { sim_get_ctx() }
}
pub fn set_ctx(p: *mut c_void) {
    unsafe { sim_set_ctx(p) }
}
pub fn guard_count() -> u32 {
    unsafe { sim_guard_count() }
}
pub fn pcs() -> &'static [usize] {
    unsafe {
        let b = sim_pcs(0);
        let e = sim_pcs(1);
        if b.is_null() {
            return &[];
        }
        std::slice::from_raw_parts(b, (e as usize - b as usize) / 8)
    }
}
/// is library code running in this thread?
pub fn active() -> bool {
    unsafe { sim_get_active() != 0 }
}
pub fn heap_junk(n: usize, free: bool) {
    unsafe { sim_junk(n, c_int::from(free)) }
}
pub fn install_cov(cov: *mut u8, hot: *mut u8) {
    unsafe { sim_set_cov(cov, hot) }
}

/// Runs library code: preemptible, system interfaces simulated.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = Act::set(1);
    f()
}
/// Runs harness code from inside library code (plug-in callbacks).
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _g = Act::set(0);
    f()
}
struct Act(c_int);
impl Act {
    #[inline]
    fn set(v: c_int) -> Act {
        unsafe {
            let o = sim_get_active();
            sim_set_active(v);
            Act(o)
        }
    }
}
impl World {
    pub fn cur_main(&self) -> String {
        format!("task {}", self.cur as i64 - self.first_main as i64)
    }
}
impl Drop for Act {
    fn drop(&mut self) {
        unsafe { sim_set_active(self.0) }
    }
}

pub const FINISH: i64 = -1;
const HOUSE: u64 = 400_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Pre {
    pub task: u32,
    pub op: u32,
    pub step: i64,
    pub to: u32,
}
#[derive(Clone, Debug)]
pub enum Policy {
    /// never preempt; operations run in the given global order of tasks if there is one
    Seq,
    Random { seed: u64, mean: u64, seam_pct: u64, hot_pct: u64 },
    Explicit,
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    Futex(usize, Option<i64>),
    Join(usize),
    Sleep(i64),
    /// inside a plug-in that does not answer
    Stall,
    Done,
}
struct Task {
    sem: Box<libc::sem_t>,
    st: St,
    op: u32,
    qend: u64,
    last: u64,
    timed_out: bool,
    library: bool,
    pth: u64,
    since: u64,
}
/// Surroundings of the library, all simulated.
#[derive(Clone, Debug, PartialEq)]
pub struct Amb {
    pub real: i64,
    pub mono: i64,
    pub entropy: u64,
    pub env: i64,
    pub file_fail: i64,
    pub cpus: i64,
    pub pid: i64,
}
pub const CANON: Amb = Amb { real: 1_718_841_600_000_000_000, mono: 1_000_000_000_000, entropy: 7, env: 0, file_fail: 0, cpus: 8, pid: 4242 };

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub switches: u64,
    pub preempts: u64,
    pub hot_hits: u64,
    pub clock_reads: u64,
    pub entropy_reads: u64,
    pub env_reads: u64,
    pub file_opens: u64,
    pub futex_waits: u64,
    pub lib_threads: u64,
    pub sleeps: u64,
    pub cpu_reads: u64,
}
pub struct World {
    tasks: Vec<Task>,
    cur: usize,
    nmain: usize,
    first_main: usize,
    policy: Policy,
    rng: Rng,
    plan: BTreeMap<(u32, u32), Vec<(i64, u32)>>,
    pub gsteps: u64,
    pub cap: u64,
    pub skew_real: i64,
    pub skew_mono: i64,
    pub amb: Amb,
    ent: u64,
    main_sem: Box<libc::sem_t>,
    pub counts: Counts,
    pub hist: u64,
    emit: fn(&str),
    pub order: Vec<usize>,
    pub opos: usize,
    env_store: Vec<std::ffi::CString>,
    env_over: BTreeMap<std::ffi::CString, Option<std::ffi::CString>>,
    environ: Vec<*mut c_char>,
    phase_done: bool,
    polls: u64,
}
/// stack of a simulated thread
pub static mut STACK: usize = 8 << 20;
static mut W: *mut World = std::ptr::null_mut();
pub fn world() -> Option<&'static mut World> {
    unsafe {
        if W.is_null() {
            None
        } else {
            Some(&mut *W)
        }
    }
}
fn w() -> &'static mut World {
    world().expect("no world")
}

fn new_sem() -> Box<libc::sem_t> {
    unsafe {
        let mut b: Box<libc::sem_t> = Box::new(std::mem::zeroed());
        libc::sem_init(&mut *b, 0, 0);
        b
    }
}
fn wait(s: *mut libc::sem_t) {
    unsafe { while libc::sem_wait(s) != 0 {} }
}
fn post(s: *mut libc::sem_t) {
    unsafe {
        libc::sem_post(s);
    }
}

pub fn init(policy: Policy, plan: &[Pre], cap: u64, amb: Amb, emit: fn(&str)) {
    let mut m: BTreeMap<(u32, u32), Vec<(i64, u32)>> = BTreeMap::new();
    for p in plan {
        m.entry((p.task, p.op)).or_default().push((p.step, p.to));
    }
    for v in m.values_mut() {
        // FINISH last, otherwise stable by step
        v.sort_by_key(|x| if x.0 == FINISH { i64::MAX } else { x.0 });
    }
    let seed = if let Policy::Random { seed, .. } = policy { seed } else { 0 };
    let hot = if let Policy::Random { hot_pct, .. } = policy { hot_pct > 0 } else { false };
    let world = World {
        tasks: Vec::with_capacity(4096),
        cur: 0,
        nmain: 0,
        first_main: 0,
        policy,
        rng: Rng::new(seed),
        plan: m,
        gsteps: 0,
        cap,
        skew_real: 0,
        skew_mono: 0,
        ent: amb.entropy,
        amb,
        main_sem: new_sem(),
        counts: Counts::default(),
        hist: 0xcbf2_9ce4_8422_2325,
        emit,
        order: vec![],
        opos: 0,
        env_store: vec![],
        env_over: BTreeMap::new(),
        environ: vec![],
        phase_done: false,
        polls: 0,
    };
    unsafe {
        W = Box::into_raw(Box::new(world));
        sim_set_hot_on(c_int::from(hot));
    }
}

fn hist(v: u64) {
    let w = w();
    w.hist = (w.hist ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(17);
}

/// Runs the given task bodies under the scheduler until all of them are done.
/// What a thread still does while its thread locals are being destroyed, those of the library before this one.
pub struct Late(u32, Option<Box<dyn FnOnce() + Send>>);
impl Drop for Late {
    fn drop(&mut self) {
        if let Some(f) = self.1.take() {
            f();
        }
        finish(self.0 as usize);
        loop {
            unsafe { libc::pause() };
        }
    }
}
thread_local! { static LATE: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) }; }
pub type Body = (Box<dyn FnOnce() + Send>, Option<Box<dyn FnOnce() + Send>>);
pub fn run_tasks(bodies: Vec<Body>, env: &[i64], setup: bool) {
    let base = w().tasks.len();
    let n = bodies.len();
    {
        let w = w();
        w.first_main = base;
        w.nmain = n;
        w.phase_done = false;
        for _ in 0..n {
            w.tasks.push(Task { sem: new_sem(), st: St::Ready, op: u32::MAX, qend: 0, last: 0, timed_out: false, library: false, pth: 0, since: 0 });
        }
    }
    let mut hs = vec![];
    for (i, (b, late)) in bodies.into_iter().enumerate() {
        let tid = base + i;
        let started = new_sem();
        let sp = Box::into_raw(started) as usize;
        let mut b8 = std::thread::Builder::new();
        // canonical threads have no name
        if let Some(e) = env.get(i).filter(|e| **e != 0) {
            if let Some(v) = crate::dict::value(crate::rng::derive(*e as u64, i as u64, 11)) {
                b8 = b8.name(if v.is_empty() || v.contains('\0') { "main".into() } else { v });
            }
        }
        let h = b8
            .stack_size(unsafe { STACK })
            .spawn(move || {
                unsafe { sim_set_tid(tid as c_int) };
                post(sp as *mut libc::sem_t);
                let s: *mut libc::sem_t = &mut *w().tasks[tid].sem;
                wait(s);
                let last = late.is_some();
                if last {
                    LATE.with(|l| *l.borrow_mut() = Some(Late(tid as u32, late)));
                }
                b();
                if last {
                    return;
                }
                finish(tid);
                // never exit: nothing of this thread may run outside the schedule
                loop {
                    unsafe { libc::pause() };
                }
            })
            .expect("spawn");
        wait(sp as *mut libc::sem_t);
        hs.push(h);
    }
    let first = {
        let w = w();
        if setup || n == 1 {
            base
        } else if !w.order.is_empty() {
            base + w.order[0]
        } else {
            match w.policy {
                Policy::Random { .. } => base + w.rng.idx(n),
                _ => w.plan.get(&(u32::MAX, u32::MAX)).map_or(base, |v| (v[0].1 as usize).clamp(base, base + n - 1)),
            }
        }
    };
    if !setup {
        emit_pre(u32::MAX, u32::MAX, 0, first as u32);
    }
    w().cur = first;
    let s: *mut libc::sem_t = &mut *w().tasks[first].sem;
    post(s);
    let ms: *mut libc::sem_t = &mut *w().main_sem;
    wait(ms);
    std::mem::forget(hs);
}
pub fn note(v: u64) {
    hist(v);
}

fn emit_pre(task: u32, op: u32, step: i64, to: u32) {
    let w = w();
    hist(u64::from(task) << 32 ^ u64::from(op));
    hist(step as u64 ^ u64::from(to) << 48);
    (w.emit)(&format!("P {task} {op} {step} {to}"));
}

fn sync_steps() {
    let w = w();
    let t = &mut w.tasks[w.cur];
    let s = unsafe { sim_get_steps() };
    w.gsteps += s.wrapping_sub(t.last);
    t.last = s;
}
fn now_mono() -> i64 {
    let w = w();
    w.amb.mono + w.skew_mono + w.gsteps as i64
}
fn now_real() -> i64 {
    let w = w();
    w.amb.real.wrapping_add(w.skew_real).wrapping_add(w.gsteps as i64)
}

pub fn die(class: &str, msg: &str) -> ! {
    let w = w();
    let op = w.tasks.get(w.cur).map_or(u32::MAX, |t| t.op);
    let task = w.cur as i64 - w.first_main as i64;
    (w.emit)(&format!("V {class} {task} {op} {}", msg.replace('\n', " ")));
    (w.emit)("END");
    unsafe { libc::_exit(0) }
}

fn ready(w: &World) -> Vec<usize> {
    (0..w.tasks.len()).filter(|&i| w.tasks[i].st == St::Ready).collect()
}

/// Called with the current task not Ready (blocked or done): choose and run another one.
fn leave(step_key: i64) {
    let me = w().cur;
    loop {
        let w = w();
        let r = ready(w);
        if !r.is_empty() {
            let opk = w.tasks[me].op;
            let next = if r.len() == 1 {
                r[0]
            } else if step_key == FINISH && !w.order.is_empty() && w.opos < w.order.len() && r.contains(&(w.first_main + w.order[w.opos])) {
                w.first_main + w.order[w.opos]
            } else {
                let choice = match w.policy {
                    Policy::Random { .. } => r[w.rng.idx(r.len())],
                    Policy::Seq => r[0],
                    Policy::Explicit => take_plan(me as u32, opk, step_key, true).filter(|t| r.contains(&(*t as usize))).map_or(r[0], |t| t as usize),
                };
                emit_pre(me as u32, opk, step_key, choice as u32);
                choice
            };
            switch_to(me, next);
            return;
        }
        // nobody ready: advance simulated time to the earliest deadline
        let mut best: Option<(i64, usize)> = None;
        for (i, t) in w.tasks.iter().enumerate() {
            let d = match t.st {
                St::Futex(_, Some(d)) => d,
                St::Sleep(d) => d,
                _ => continue,
            };
            if best.is_none_or(|b| d < b.0) {
                best = Some((d, i));
            }
        }
        let stalled = w.tasks.iter().position(|t| t.st == St::Stall);
        if let Some((d, i)) = best {
            if stalled.is_some() {
                w.polls += 1;
                if w.polls > 20_000 {
                    die("held-up", "a call keeps waiting, with a timeout, while the plug-in of another one is stalled");
                }
            }
            let now = now_mono();
            if d > now {
                w.skew_mono += d - now;
                w.skew_real = w.skew_real.wrapping_add(d - now);
            }
            w.tasks[i].timed_out = true;
            w.tasks[i].st = St::Ready;
            continue;
        }
        if let Some(s) = stalled {
            // everybody else is done, or waits for what?
            if let Some(b) = (w.first_main..w.first_main + w.nmain).find(|i| matches!(w.tasks[*i].st, St::Futex(..) | St::Join(_))) {
                let who = |i: usize| format!("the call with uid {} of task {}", w.tasks[i].op, i - w.first_main);
                die("held-up", &format!("{} waits as long as a plug-in of {} is stalled", who(b), if s < w.first_main + w.nmain && s >= w.first_main { who(s) } else { "a library thread".into() }));
            }
            w.tasks[s].st = St::Ready;
            continue;
        }
        let undone = (w.first_main..w.first_main + w.nmain).any(|i| w.tasks[i].st != St::Done);
        if undone {
            die("deadlock", "every caller is blocked inside the library");
        }
        return;
    }
}

fn switch_to(me: usize, next: usize) {
    let w = w();
    if next == me {
        return;
    }
    w.counts.switches += 1;
    w.tasks[next].since = w.gsteps;
    w.cur = next;
    let ns: *mut libc::sem_t = &mut *w.tasks[next].sem;
    let ms: *mut libc::sem_t = &mut *w.tasks[me].sem;
    let done = w.tasks[me].st == St::Done;
    post(ns);
    if !done {
        wait(ms);
    }
}

fn finish(tid: usize) {
    sync_steps();
    let w1 = w();
    w1.tasks[tid].st = St::Done;
    for t in &mut w1.tasks {
        if t.st == St::Join(tid) {
            t.st = St::Ready;
        }
    }
    let all = (w1.first_main..w1.first_main + w1.nmain).all(|i| w1.tasks[i].st == St::Done);
    if all && !w1.phase_done {
        w1.phase_done = true;
        let s: *mut libc::sem_t = &mut *w1.main_sem;
        post(s);
        return;
    }
    if all {
        return;
    }
    leave(FINISH);
}

fn take_plan(task: u32, op: u32, step: i64, exact: bool) -> Option<u32> {
    let w = w();
    let v = w.plan.get_mut(&(task, op))?;
    let f = *v.first()?;
    let hit = if exact { f.0 == step } else { f.0 != FINISH && f.0 <= step };
    if hit {
        v.remove(0);
        Some(f.1)
    } else if exact && step == FINISH {
        // skip stale entries of a shortened operation
        let p = v.iter().position(|x| x.0 == FINISH)?;
        let t = v[p].1;
        v.clear();
        Some(t)
    } else {
        None
    }
}
fn plan_next(task: u32, op: u32) -> u64 {
    let w = w();
    match w.plan.get(&(task, op)).and_then(|v| v.first()) {
        Some(&(s, _)) if s != FINISH => s as u64,
        _ => u64::MAX,
    }
}
fn set_next() {
    let w = w();
    let t = &w.tasks[w.cur];
    let s = unsafe { sim_get_steps() };
    let n = match w.policy {
        Policy::Seq => u64::MAX,
        Policy::Random { .. } => t.qend,
        Policy::Explicit => plan_next(w.cur as u32, t.op),
    };
    unsafe { sim_set_next(n.max(s + 1).min(s + HOUSE)) };
}
fn draw_quantum() {
    let w = w();
    if let Policy::Random { mean, .. } = w.policy {
        let q = if mean == 0 { u64::MAX / 4 } else { w.rng.geo(mean) };
        let s = unsafe { sim_get_steps() };
        w.tasks[w.cur].qend = s + q;
    }
}

/// A task starts its operation `op`: step counting restarts.
pub fn begin_op(op: u32) {
    sync_steps();
    {
        let w = w();
        let t = &mut w.tasks[w.cur];
        t.op = op;
        t.last = 0;
    }
    unsafe { sim_set_steps(0) };
    draw_quantum();
    set_next();
    hist(u64::from(op) ^ 0xabc);
}
/// Steps of the operation just finished.
pub fn end_op_steps() -> u64 {
    sync_steps();
    let w = w();
    let steps = w.tasks[w.cur].last;
    hist(steps ^ 0xdef);
    steps
}
/// In a sequential history: hand over to the task whose operation is next.
pub fn end_op() {
    let w = w();
    if !w.order.is_empty() {
        w.opos += 1;
        if w.opos < w.order.len() {
            let next = w.first_main + w.order[w.opos];
            let me = w.cur;
            if next != me && w.tasks[next].st == St::Ready {
                switch_to(me, next);
            }
        }
    }
}

/// A preemption opportunity at a plug-in callback.
pub fn seam_point() {
    if world().is_none() || unsafe { sim_get_tid() } < 0 {
        return;
    }
    unsafe { sim_set_steps(sim_get_steps() + 1) };
    let w = w();
    let go = match w.policy {
        Policy::Random { seam_pct, .. } => seam_pct > 0 && w.rng.chance(seam_pct, 100),
        _ => false,
    };
    if go {
        slow(3);
    } else if unsafe { sim_get_steps() >= sim_get_next() } {
        slow(0);
    }
}

#[no_mangle]
pub extern "C" fn sim_slow(reason: c_int) {
    slow(reason);
}
fn slow(reason: c_int) {
    if world().is_none() || unsafe { sim_get_tid() } < 0 {
        unsafe { sim_set_next(u64::MAX) };
        return;
    }
    sync_steps();
    let me = w().cur;
    {
        let w = w();
        if w.gsteps > w.cap {
            if stalled() {
                die("held-up", "a call makes no progress while the plug-in of another one is stalled");
            }
            die("stall", "no progress within the step budget");
        }
        if reason == 1 {
            w.counts.hot_hits += 1;
        }
    }
    let step = unsafe { sim_get_steps() };
    let opk = w().tasks[me].op;
    let choice: Option<usize> = {
        let w = w();
        let r = ready(w);
        let fair = w.gsteps - w.tasks[me].since > 4_000_000;
        match w.policy {
            Policy::Seq => {
                // only threads the library itself started may run besides the current operation
                if reason == 2 || fair {
                    let c: Vec<usize> = r.iter().copied().filter(|&i| i != me && (w.tasks[i].library || w.tasks[me].library && i == w.first_main + w.order.get(w.opos).copied().unwrap_or(0))).collect();
                    c.first().copied()
                } else {
                    None
                }
            }
            Policy::Random { hot_pct, .. } => {
                let due = match reason {
                    1 => w.rng.chance(hot_pct, 100) || step >= w.tasks[me].qend,
                    2 | 3 => true,
                    _ => step >= w.tasks[me].qend || fair,
                };
                if due {
                    draw_quantum();
                    if r.len() < 2 {
                        None
                    } else {
                        let c = r[w.rng.idx(r.len())];
                        if c != me || reason == 2 {
                            emit_pre(me as u32, opk, step as i64, c as u32);
                        }
                        Some(c)
                    }
                } else {
                    None
                }
            }
            Policy::Explicit => {
                let p = take_plan(me as u32, opk, step as i64, false).map(|t| t as usize).filter(|t| r.contains(t));
                let c = if p.is_none() && (reason == 2 || fair) {
                    r.iter().copied().find(|&i| i > me).or(r.first().copied())
                } else {
                    p
                };
                if let Some(c) = c {
                    if c != me || reason == 2 {
                        emit_pre(me as u32, opk, step as i64, c as u32);
                    }
                }
                c
            }
        }
    };
    if let Some(c) = choice {
        if c != me {
            w().counts.preempts += 1;
            switch_to(me, c);
        }
        let w = w();
        w.tasks[me].since = w.gsteps;
    }
    set_next();
}

// ---- interposed system interfaces -------------------------------------------------------------------------
fn in_task() -> bool {
    world().is_some() && unsafe { sim_get_tid() } >= 0
}
#[no_mangle]
pub extern "C" fn sim_futex_wait(addr: *mut u32, val: u32, has_to: c_int, to: i64) -> c_long {
    if !in_task() {
        return -i64::from(libc::EAGAIN);
    }
    if unsafe { std::ptr::read_volatile(addr) } != val {
        return -i64::from(libc::EAGAIN);
    }
    sync_steps();
    if has_to != 0 {
        sim_effect(c"the call waits for a time".as_ptr());
    }
    let dl = if has_to != 0 { Some(now_mono().saturating_add(to)) } else { None };
    let w1 = w();
    let me = w1.cur;
    w1.counts.futex_waits += 1;
    w1.tasks[me].timed_out = false;
    w1.tasks[me].st = St::Futex(addr as usize, dl);
    unsafe { sim_set_steps(sim_get_steps() + 1) };
    leave(unsafe { sim_get_steps() } as i64);
    if !in_task() {
        return 0;
    }
    let r = if w().tasks[me].timed_out { -i64::from(libc::ETIMEDOUT) } else { 0 };
    set_next();
    r
}
#[no_mangle]
pub extern "C" fn sim_futex_wake(addr: *mut u32, n: c_int) -> c_long {
    if !in_task() {
        return 0;
    }
    let w = w();
    let mut k = 0;
    for t in &mut w.tasks {
        if k >= n {
            break;
        }
        if let St::Futex(a, _) = t.st {
            if a == addr as usize {
                t.st = St::Ready;
                k += 1;
            }
        }
    }
    i64::from(k)
}
#[no_mangle]
pub extern "C" fn sim_clock(id: c_int) -> i64 {
    if !in_task() {
        return raw_now();
    }
    sync_steps();
    w().counts.clock_reads += 1;
    if id == 0 || id == 5 {
        now_real()
    } else {
        now_mono()
    }
}
#[no_mangle]
pub extern "C" fn sim_entropy() -> u64 {
    if !in_task() {
        return 4;
    }
    let w = w();
    w.counts.entropy_reads += 1;
    w.ent = w.ent.wrapping_add(0x9e37_79b9_7f4a_7c15);
    crate::rng::mix(w.ent)
}
pub fn reseed_entropy(v: u64) {
    w().ent = v;
}
/// C17: what a call does beyond answering
pub static mut EFFECTS: bool = false;
pub static mut ATTEMPTS: u64 = 0;
/// what a finished call has left behind
pub fn leftovers() {
    lib(|| {
        use std::io::Write;
        let _ = std::io::stdout().flush();
    });
    if !crate::exec::hook_is_ours() {
        die("effect", "the panic hook is replaced after a call");
    }
    if w().tasks.iter().any(|t| t.library && t.st != St::Done) {
        die("effect", "a thread started by a call is still running after it");
    }
}
#[no_mangle]
pub extern "C" fn sim_effect(what: *const c_char) {
    if unsafe { EFFECTS } && in_task() {
        die("effect", &format!("{} during a call", unsafe { CStr::from_ptr(what) }.to_string_lossy()));
    }
    unsafe { ATTEMPTS += 1 };
}
#[no_mangle]
pub extern "C" fn sim_setenv(name: *const c_char, value: *const c_char) {
    if in_task() {
        let name = unsafe { CStr::from_ptr(name) }.to_owned();
        let value = (!value.is_null()).then(|| unsafe { CStr::from_ptr(value) }.to_owned());
        w().env_over.insert(name, value);
    }
}
#[no_mangle]
pub extern "C" fn sim_getenv(name: *const c_char, handled: *mut c_int) -> *const c_char {
    if !in_task() {
        return std::ptr::null();
    }
    let w = w();
    w.counts.env_reads += 1;
    unsafe { *handled = 1 };
    if let Some(v) = w.env_over.get(unsafe { CStr::from_ptr(name) }) {
        return v.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    }
    // mode 0: empty environment; otherwise every variable exists with a mode dependent value
    if w.amb.env == 0 {
        return std::ptr::null();
    }
    let n = unsafe { CStr::from_ptr(name) }.to_string_lossy().to_string();
    let Some(v) = crate::dict::value(crate::rng::derive(w.amb.env as u64, crate::rng::fnv(n.as_bytes()), 3)) else {
        return std::ptr::null();
    };
    let c = std::ffi::CString::new(v).unwrap_or_default();
    w.env_store.push(c);
    w.env_store.last().unwrap().as_ptr()
}
/// 0 no such file, 1 input/output error, 2 the real file, 3.. a file with simulated contents
#[no_mangle]
pub extern "C" fn sim_open(path: *const c_char, data: *mut *const c_char, len: *mut usize) -> c_int {
    if !in_task() {
        return 2;
    }
    let w = w();
    w.counts.file_opens += 1;
    // canonical surroundings have no files, so that nothing outside the run can leak in
    if w.amb.file_fail < 3 {
        return w.amb.file_fail as c_int;
    }
    let n = unsafe { CStr::from_ptr(path) }.to_bytes().to_vec();
    let h = crate::rng::derive(w.amb.file_fail as u64, crate::rng::fnv(&n), 5);
    let mut v = crate::dict::value(h).unwrap_or_default();
    if h >> 60 & 1 == 1 {
        v.push('\n');
    }
    unsafe { *len = v.len() };
    w.env_store.push(std::ffi::CString::new(v).unwrap_or_default());
    unsafe { *data = w.env_store.last().unwrap().as_ptr() };
    3
}
/// Working directory and host name: a name that depends on the surroundings.
#[no_mangle]
pub extern "C" fn sim_name(kind: c_int) -> *const c_char {
    if !in_task() {
        return std::ptr::null();
    }
    let w = w();
    w.counts.env_reads += 1;
    let v = if w.amb.env == 0 { None } else { crate::dict::value(crate::rng::derive(w.amb.env as u64, kind as u64, 9)) };
    let v = v.unwrap_or_else(|| "sim".into()).replace('/', "-");
    let v = if kind == 0 { format!("/{v}") } else { v };
    w.env_store.push(std::ffi::CString::new(v).unwrap_or_default());
    w.env_store.last().unwrap().as_ptr()
}
/// Terminals, broken streams, user ids: bits that depend on the surroundings; 0 in the canonical ones.
#[no_mangle]
pub extern "C" fn sim_odds(kind: c_int) -> u32 {
    if !in_task() {
        return 0;
    }
    let w = w();
    w.counts.env_reads += 1;
    if w.amb.env == 0 {
        0
    } else {
        crate::rng::derive(w.amb.env as u64, kind as u64, 31) as u32
    }
}
#[no_mangle]
pub extern "C" fn sim_sleep(ns: i64) {
    if !in_task() {
        return;
    }
    sync_steps();
    let d = now_mono().saturating_add(ns);
    let w1 = w();
    let me = w1.cur;
    w1.counts.sleeps += 1;
    w1.tasks[me].st = St::Sleep(d);
    unsafe { sim_set_steps(sim_get_steps() + 1) };
    leave(unsafe { sim_get_steps() } as i64);
    set_next();
}
/// The plug-in being asked by the current task does not answer until nothing else can go on.
pub fn stall() {
    if !in_task() {
        return;
    }
    sync_steps();
    let w1 = w();
    let me = w1.cur;
    w1.tasks[me].st = St::Stall;
    unsafe { sim_set_steps(sim_get_steps() + 1) };
    leave(unsafe { sim_get_steps() } as i64);
    set_next();
}
pub fn stalled() -> bool {
    w().tasks.iter().any(|t| t.st == St::Stall)
}
#[no_mangle]
pub extern "C" fn sim_cpus() -> c_int {
    if !in_task() {
        return 8;
    }
    w().counts.cpu_reads += 1;
    w().amb.cpus as c_int
}
#[no_mangle]
pub extern "C" fn sim_pid() -> c_int {
    if !in_task() {
        return 4242;
    }
    w().amb.pid as c_int
}
#[no_mangle]
pub extern "C" fn sim_thread_new(_ctx: *mut c_void, parent: c_int) -> c_int {
    let w = w();
    let op = w.tasks.get(parent as usize).map_or(u32::MAX, |t| t.op);
    w.counts.lib_threads += 1;
    w.tasks.push(Task { sem: new_sem(), st: St::Ready, op, qend: 0, last: 0, timed_out: false, library: true, pth: 0, since: 0 });
    (w.tasks.len() - 1) as c_int
}
#[no_mangle]
pub extern "C" fn sim_thread_bind(tid: c_int, pth: u64) {
    w().tasks[tid as usize].pth = pth;
}
#[no_mangle]
pub extern "C" fn sim_thread_begin(tid: c_int) {
    let s: *mut libc::sem_t = &mut *w().tasks[tid as usize].sem;
    wait(s);
    unsafe { sim_set_steps(0) };
    w().tasks[tid as usize].last = 0;
    draw_quantum();
    set_next();
}
#[no_mangle]
pub extern "C" fn sim_thread_end(tid: c_int) {
    finish(tid as usize);
}
#[no_mangle]
pub extern "C" fn sim_thread_join(pth: u64) {
    if !in_task() {
        return;
    }
    sync_steps();
    let w1 = w();
    let me = w1.cur;
    if let Some(t) = w1.tasks.iter().position(|t| t.pth == pth && t.library) {
        if w1.tasks[t].st != St::Done {
            w1.tasks[me].st = St::Join(t);
            unsafe { sim_set_steps(sim_get_steps() + 1) };
            leave(unsafe { sim_get_steps() } as i64);
            set_next();
        }
    }
}
