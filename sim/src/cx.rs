//! Per-operation context: fault script, callback counters, and the history of plug-in calls of the operation.
#![allow(static_mut_refs, dead_code)]
use crate::rt;
use std::ffi::c_void;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Seam {
    Fit = 0,
    Value = 1,
    DayCount = 2,
    Cal = 3,
    Period = 4,
    Cast = 5,
    Arith = 6,
}
pub const NSEAM: usize = 7;
pub const SEAM_NAMES: [&str; NSEAM] = ["interpolator_fit", "interpolator_value", "day_count", "calendar_query", "period_add", "number_conversion", "number_arithmetic"];
pub fn seam_from(i: i64) -> Seam {
    [Seam::Fit, Seam::Value, Seam::DayCount, Seam::Cal, Seam::Period, Seam::Cast, Seam::Arith][(i as usize).min(6)]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    /// the plug-in reports failure; the argument selects the kind
    Fail(i64),
    /// the plug-in panics
    Panic,
    /// market a is shifted to level b
    Market(i64, i64),
    /// calendar a: day b flips
    Flip(i64, i64),
    /// calendar a: the day just asked about flips (before the answer if b == 0, after it otherwise)
    FlipAsked(i64, i64),
    /// the plug-in calls the library: operation a of the universe
    Nested(i64),
    /// clocks jump by a seconds (wall) and b seconds (monotonic); entropy and environment change too
    Jump(i64, i64),
    /// all conversions of magnitude above a fail, from the k-th on
    Limit(i64),
    /// the plug-in fails from the k-th question on, and never recovers during the call
    FailFrom(i64),
    /// from the k-th question on, the plug-in's data differ at every question
    ChurnFrom(i64),
    /// the plug-in does not answer until every other thread is done or waits
    Stall,
    /// the plug-in panics, and one of its destructors calls the library on the way out: step a of the nested ones
    PanicCall(i64),
}
impl Act {
    pub fn enc(&self) -> [i64; 3] {
        match *self {
            Act::Fail(a) => [0, a, 0],
            Act::Panic => [1, 0, 0],
            Act::Market(a, b) => [2, a, b],
            Act::Flip(a, b) => [3, a, b],
            Act::FlipAsked(a, b) => [4, a, b],
            Act::Nested(a) => [5, a, 0],
            Act::Jump(a, b) => [6, a, b],
            Act::Limit(a) => [7, a, 0],
            Act::FailFrom(a) => [8, a, 0],
            Act::ChurnFrom(a) => [9, a, 0],
            Act::Stall => [10, 0, 0],
            Act::PanicCall(a) => [11, a, 0],
        }
    }
    pub fn dec(v: [i64; 3]) -> Act {
        match v[0] {
            0 => Act::Fail(v[1]),
            1 => Act::Panic,
            2 => Act::Market(v[1], v[2]),
            3 => Act::Flip(v[1], v[2]),
            4 => Act::FlipAsked(v[1], v[2]),
            5 => Act::Nested(v[1]),
            6 => Act::Jump(v[1], v[2]),
            7 => Act::Limit(v[1]),
            8 => Act::FailFrom(v[1]),
            9 => Act::ChurnFrom(v[1]),
            10 => Act::Stall,
            _ => Act::PanicCall(v[1]),
        }
    }
    pub fn panics(&self) -> bool {
        matches!(self, Act::Panic | Act::PanicCall(_))
    }
    /// holds from the k-th question on
    pub fn lasting(&self) -> bool {
        matches!(self, Act::FailFrom(_) | Act::ChurnFrom(_))
    }
    pub fn name(&self) -> &'static str {
        match self {
            Act::Fail(_) => "fail",
            Act::Panic => "panic",
            Act::Market(..) => "market_change",
            Act::Flip(..) => "calendar_flip",
            Act::FlipAsked(..) => "calendar_flip_asked",
            Act::Nested(_) => "nested_call",
            Act::Jump(..) => "clock_env_jump",
            Act::Limit(_) => "range_limit",
            Act::FailFrom(_) => "fail_for_good",
            Act::ChurnFrom(_) => "data_never_settle",
            Act::Stall => "stall",
            Act::PanicCall(_) => "panic_and_call_while_unwinding",
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Item {
    pub seam: Seam,
    /// index of the callback (of this seam, within this operation), from 1
    pub k: u64,
    pub act: Act,
}
pub struct Injected;
pub struct Runaway;

#[derive(Clone, Debug, PartialEq)]
pub struct Fired {
    pub seam: Seam,
    pub act: Act,
    /// textual error the plug-in returned, if any
    pub msg: String,
}
#[derive(Default, Clone)]
pub struct Rec {
    pub fits: Vec<Vec<(f64, f64)>>,
    pub values: Vec<(f64, f64)>,
    /// what was asked, answered or not: times, pairs of dates, days
    pub asked_t: Vec<f64>,
    pub asked_dc: Vec<(i32, i32)>,
    pub asked_day: Vec<i32>,
    pub asked_per: Vec<i32>,
    pub dayfracs: Vec<(i32, i32, f64)>,
    /// calendar id, day, open
    pub cal: Vec<(usize, i32, bool)>,
    pub casts_failed: Vec<i64>,
    pub casts: u64,
    pub periods: Vec<(i32, Option<i32>)>,
}
pub struct Cx {
    pub op: u32,
    pub script: Vec<Item>,
    pub counts: [u64; NSEAM],
    pub limit: Option<i64>,
    /// a limit that holds from the first conversion on
    pub limit0: Option<i64>,
    pub fired: Vec<Fired>,
    pub rec: Rec,
    pub record: bool,
    pub market: usize,
    pub has_arith: bool,
    pub cal_budget: u64,
    pub asked: u64,
    /// questions a call may ask, per kind; a call that asks far more is stopped
    pub budget: [u64; NSEAM],
    pub made_failed: Option<usize>,
    /// the first failure of a plug-in during the call, and the questions asked after it
    pub failed: Option<(Seam, u64)>,
    pub after: u64,
    pub depth: u32,
    parent: *mut c_void,
}
impl Cx {
    pub fn new(op: u32, script: Vec<Item>, depth: u32) -> Cx {
        let limit0 = script.iter().find_map(|i| match i.act {
            Act::Limit(l) if i.seam == Seam::Cast && i.k == 1 => Some(l),
            _ => None,
        });
        let has_arith = script.iter().any(|i| i.seam == Seam::Arith);
        Cx { op, script, counts: [0; NSEAM], limit: None, limit0, fired: vec![], rec: Rec::default(), record: false, market: 0, has_arith, cal_budget: 200_000, asked: 0, budget: [u64::MAX; NSEAM], made_failed: None, failed: None, after: 0, depth, parent: std::ptr::null_mut() }
    }
}
impl Cx {
    pub fn fail(&mut self, s: Seam, k: u64) {
        if self.failed.is_none() && self.made_failed.is_none() {
            self.failed = Some((s, k));
        }
    }
}
pub fn push(c: &mut Cx) {
    c.parent = rt::ctx();
    rt::set_ctx(std::ptr::from_mut(c).cast());
}
pub fn pop(c: &mut Cx) {
    rt::set_ctx(c.parent);
}
pub fn cur() -> Option<&'static mut Cx> {
    let p = rt::ctx().cast::<Cx>();
    if p.is_null() {
        None
    } else {
        unsafe { Some(&mut *p) }
    }
}

pub static mut NESTED: Option<fn(i64)> = None;
pub static mut FAULTS: [[u64; 12]; NSEAM] = [[0; 12]; NSEAM];
pub static mut CALLBACKS: [u64; NSEAM] = [0; NSEAM];

/// a destructor that calls the library while its thread unwinds
struct OnUnwind(i64);
impl Drop for OnUnwind {
    fn drop(&mut self) {
        unsafe {
            if let Some(f) = NESTED {
                f(self.0);
            }
        }
    }
}

pub enum Todo {
    None,
    Fail(i64),
}
/// One plug-in callback. Runs with library execution suspended (inside `rt::host`). Returns what the plug-in has to do.
/// `asked` is the day a calendar is being asked about.
pub fn seam(s: Seam, asked: Option<(usize, i32)>) -> Todo {
    let Some(c) = cur() else { return Todo::None };
    let k = {
        c.counts[s as usize] += 1;
        c.counts[s as usize]
    };
    unsafe { CALLBACKS[s as usize] += 1 };
    if unsafe { rt::EFFECTS } && !crate::exec::hook_is_ours() {
        rt::die("effect", "the panic hook is replaced while a plug-in is asked");
    }
    if k > c.budget[s as usize].saturating_mul(4) {
        std::panic::resume_unwind(Box::new(Runaway));
    }
    if s != Seam::Arith && c.failed.is_some() && c.made_failed.is_none() {
        c.after += 1;
    }
    let mut todo = Todo::None;
    let mut n = 0;
    while n < c.script.len() {
        let it = c.script[n];
        n += 1;
        if it.seam != s || (if it.act.lasting() { k < it.k } else { it.k != k }) {
            continue;
        }
        unsafe { FAULTS[s as usize][it.act.enc()[0] as usize] += 1 };
        match it.act {
            Act::Fail(kind) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                todo = Todo::Fail(kind);
            }
            Act::Panic => {
                c.fail(s, k);
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                if unsafe { rt::EFFECTS } {
                    // the ordinary way, which tells the panic hook
                    std::panic::panic_any(Injected);
                }
                std::panic::resume_unwind(Box::new(Injected));
            }
            Act::PanicCall(op) => {
                c.fail(s, k);
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                let _calls = OnUnwind(op);
                std::panic::resume_unwind(Box::new(Injected));
            }
            Act::Market(a, b) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                crate::plug::market_set(a as usize, b);
            }
            Act::Flip(a, b) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                crate::plug::cal_flip(a as usize, b as i32);
            }
            Act::FlipAsked(_, _) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                if let Some((id, day)) = asked {
                    crate::plug::cal_flip(id, day);
                }
            }
            Act::Nested(op) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                unsafe {
                    if let Some(f) = NESTED {
                        f(op);
                    }
                }
            }
            Act::Jump(a, b) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                if let Some(w) = rt::world() {
                    w.skew_real = w.skew_real.wrapping_add(a.wrapping_mul(1_000_000_000));
                    w.skew_mono = w.skew_mono.wrapping_add(b.abs().wrapping_mul(1_000_000_000));
                    w.amb.env = (w.amb.env + 1 + (a & 7)) % 4097;
                    w.amb.cpus = 1 + (b & 7);
                    rt::reseed_entropy(crate::rng::mix(a as u64));
                }
            }
            Act::FailFrom(kind) => {
                if k == it.k {
                    c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                }
                todo = Todo::Fail(kind);
            }
            Act::ChurnFrom(a) => {
                if k == it.k {
                    c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                }
                match asked {
                    Some((id, day)) => crate::plug::cal_flip(id, day),
                    None => {
                        for m in 0..2 {
                            crate::plug::market_set(m, if a == 0 { 25 + 50 * (k as i64 & 1) } else { (k as i64 * 7) % 400 });
                        }
                    }
                }
            }
            Act::Stall => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                rt::stall();
            }
            Act::Limit(a) => {
                c.fired.push(Fired { seam: s, act: it.act, msg: String::new() });
                c.limit = Some(a);
            }
        }
    }
    if matches!(todo, Todo::Fail(_)) && s != Seam::Cal {
        c.fail(s, k);
    }
    if s != Seam::Arith {
        rt::seam_point();
    }
    todo
}
/// Number conversions: is `n` representable right now?
pub fn cast_ok(n: i64) -> bool {
    rt::host(|| {
        let t = seam(Seam::Cast, None);
        let Some(c) = cur() else { return true };
        c.rec.casts += 1;
        let bad = matches!(t, Todo::Fail(_)) || c.limit.is_some_and(|l| n.abs() > l);
        if bad {
            c.rec.casts_failed.push(n);
            let k = c.counts[Seam::Cast as usize];
            c.fail(Seam::Cast, k);
        }
        !bad
    })
}
pub fn arith() {
    let Some(c) = cur() else { return };
    if c.has_arith {
        rt::host(|| {
            seam(Seam::Arith, None);
        });
    } else {
        c.counts[Seam::Arith as usize] += 1;
    }
}
