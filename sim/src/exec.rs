//! Executes operations against the library.
#![allow(static_mut_refs, dead_code)]
use crate::calreg::{self, Real, Rec, REC_ID};
use crate::cx::{self, Cx};
use crate::model;
use crate::obj::*;
use crate::plug::{self, date, day, naive, CalC, CalQ, Per, SimPeriod};
use crate::rt;
use crate::uni::*;
use calendar::Calendar;
use chrono::Datelike;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::period::days::Days;
use qlab_time::period::months::Months;
use qlab_time::period::years::Years;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Obj {
    I(Result<IBox, Out>),
    C(Result<CBox, Out>),
    B(Option<BBox>),
}
pub static mut OBJS: Vec<Option<Obj>> = vec![];
pub static mut UNI: *const Uni = std::ptr::null();
pub fn uni() -> &'static Uni {
    unsafe { &*UNI }
}
pub fn install(u: &'static Uni) {
    unsafe {
        UNI = u;
        OBJS = (0..u.specs.len()).map(|_| None).collect();
        plug::MARKETS = u.markets.clone();
        plug::CALS = u.cals.iter().map(|p| plug::CalState { pat: p.clone(), ..Default::default() }).collect();
    }
}
/// calls the library to build the object (library code active)
pub fn make(s: &Spec) -> Obj {
    match s {
        Spec::Interp { kind, prec, pre, pts, slopes } => Obj::I(interp(*kind, *prec, pre.as_deref(), pts, slopes)),
        Spec::Curve { dc, kind, prec, settle, mats, ys, market } => {
            if let Some(c) = cx::cur() {
                c.market = *market;
            }
            Obj::C(curve(*dc, *kind, *prec, *settle, mats, ys))
        }
        Spec::Bond { prec, id, issue, first, pen, mat, rate, face } => Obj::B(bond(*prec, id, *issue, *first, *pen, *mat, *rate, *face)),
    }
}
/// builds object `i` if it does not exist
pub fn ensure(i: usize) {
    if unsafe { OBJS[i].is_some() } {
        return;
    }
    let mut c = Cx::new(u32::MAX, vec![], 9);
    cx::push(&mut c);
    let r = catch_unwind(AssertUnwindSafe(|| rt::lib(|| make(&uni().specs[i]))));
    cx::pop(&mut c);
    let o = match r {
        Ok(o) => o,
        Err(e) => {
            let t = Out::Panic(panic_text(&*e));
            match &uni().specs[i] {
                Spec::Interp { .. } => Obj::I(Err(t)),
                Spec::Curve { .. } => Obj::C(Err(t)),
                Spec::Bond { .. } => Obj::B(None),
            }
        }
    };
    unsafe { OBJS[i] = Some(o) };
}
pub fn drop_obj(i: usize) {
    let o = unsafe { OBJS[i].take() };
    rt::lib(|| drop(o));
}
fn iobj(s: usize) -> Result<&'static dyn InterpObj, Out> {
    match unsafe { &OBJS[s] } {
        Some(Obj::I(Ok(b))) => Ok(&**b),
        Some(Obj::I(Err(e))) => Err(Out::Text(format!("unbuilt {}", e.s()))),
        _ => Err(Out::Text("no object".into())),
    }
}
fn cobj(s: usize) -> Result<&'static dyn CurveObj, Out> {
    match unsafe { &OBJS[s] } {
        Some(Obj::C(Ok(b))) => Ok(&**b),
        Some(Obj::C(Err(e))) => Err(Out::Text(format!("unbuilt {}", e.s()))),
        _ => Err(Out::Text("no object".into())),
    }
}
fn bobj(s: usize) -> Result<&'static dyn BondObj, Out> {
    match unsafe { &OBJS[s] } {
        Some(Obj::B(Some(b))) => Ok(&**b),
        _ => Err(Out::Text("no bond".into())),
    }
}
pub fn curve_of(s: usize) -> Option<&'static dyn CurveObj> {
    cobj(s).ok()
}

fn digest(it: impl Iterator<Item = Out>) -> Out {
    rt::host(|| {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut n = 0;
        let mut it = it;
        loop {
            let o = rt::lib(|| it.next());
            let Some(o) = o else { break };
            for b in o.s().bytes() {
                h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
            }
            n += 1;
        }
        Out::Text(format!("{n} results, digest {h:016x}"))
    })
}
fn date_out(d: Option<Date>) -> Out {
    match d {
        Some(d) => {
            let t = rt::host(|| day(d));
            Out::Int(t)
        }
        None => Out::None,
    }
}
pub fn conv_of(c: u8) -> DateRolling {
    [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding][c as usize % 5]
}
fn with_c<R>(r: CalRef, f: impl FnOnce(&dyn Calendar) -> R) -> R {
    match r {
        CalRef::Real(i) => f(calreg::reg()[i].cal()),
        CalRef::C(i) | CalRef::Q(i) => f(&CalC(i)),
        CalRef::J2(a, b) => f(calreg::j2(a, b)),
        CalRef::J3(a, b, c) => f(calreg::j3(a, b, c)),
        CalRef::J4(a, b, c, d) => f(calreg::j4(a, b, c, d)),
    }
}
/// the same with a calendar made for the purpose
fn with_new<R>(r: CalRef, f: impl FnOnce(&dyn Calendar) -> R) -> R {
    match r {
        CalRef::Real(i) => f(&*(calreg::reg()[i].make)()),
        CalRef::C(i) | CalRef::Q(i) => f(&CalC(i)),
        CalRef::J2(a, b) => f(&calreg::make2(a, b)),
        CalRef::J3(a, b, c) => f(&calreg::make3(a, b, c)),
        CalRef::J4(a, b, c, d) => f(&calreg::make4(a, b, c, d)),
    }
}
fn q_day(cal: &impl qlab_time::calendar::Calendar, k: CK, d: Date) -> Out {
    Out::Bool(if k == CK::HolQ { cal.is_holiday(d) } else { cal.is_business_day(d) })
}
fn cal_day(cal: CalRef, k: CK, n: i64) -> Out {
    let Some(nd) = rt::host(|| naive(n)) else { return Out::None };
    match k {
        CK::BizQ | CK::HolQ => {
            let d = Date::from(nd);
            match cal {
                CalRef::Real(i) => q_day(&Real(i), k, d),
                CalRef::C(i) => q_day(&CalC(i), k, d),
                CalRef::Q(i) => q_day(&CalQ(i), k, d),
                CalRef::J2(a, b) => q_day(calreg::j2(a, b), k, d),
                CalRef::J3(a, b, c) => q_day(calreg::j3(a, b, c), k, d),
                CalRef::J4(a, b, c, e) => q_day(calreg::j4(a, b, c, e), k, d),
            }
        }
        _ => with_c(cal, |c| match k {
            CK::Biz => Out::Bool(c.is_business_day(nd)),
            CK::Hol => Out::Bool(c.is_holiday(nd)),
            CK::Eom => Out::Int(i64::from(c.end_of_month(nd).num_days_from_ce())),
            CK::Last => Out::Int(i64::from(c.last_day_of_month(nd).num_days_from_ce())),
            CK::Weekend => Out::Bool(c.is_weekend(nd)),
            _ => {
                let t = c.naive_date_to_dkmy(nd);
                Out::Text(format!("{t:?}"))
            }
        }),
    }
}
fn roll(cal: CalRef, d: i64, per: Per, conv: u8) -> Out {
    let d0 = rt::host(|| date(d));
    let c = conv_of(conv);
    let scripted = cx::cur().is_some_and(|c| c.record || c.script.iter().any(|i| i.seam == cx::Seam::Period));
    macro_rules! go {
        ($p:expr) => {
            match cal {
                CalRef::Real(i) => {
                    if scripted {
                        d0.checked_roll($p, &Rec { id: REC_ID, c: Real(i) }, c)
                    } else {
                        d0.checked_roll($p, &Real(i), c)
                    }
                }
                CalRef::C(i) => d0.checked_roll($p, &CalC(i), c),
                CalRef::Q(i) => d0.checked_roll($p, &CalQ(i), c),
                CalRef::J2(a, b) => d0.checked_roll($p, calreg::j2(a, b), c),
                CalRef::J3(a, b, e) => d0.checked_roll($p, calreg::j3(a, b, e), c),
                CalRef::J4(a, b, e, g) => d0.checked_roll($p, calreg::j4(a, b, e, g), c),
            }
        };
    }
    let r = if scripted {
        go!(SimPeriod(per))
    } else {
        match per {
            Per::D(k) => go!(Days::new(k)),
            Per::M(k) => go!(Months::new(k)),
            Per::Y(k) => go!(Years::new(k)),
        }
    };
    date_out(r)
}

/// The operation itself; library code is active.
pub fn run_op(op: &Op) -> Out {
    match op {
        Op::Val { s, t } => match iobj(*s) {
            Ok(o) => o.value(*t),
            Err(e) => e,
        },
        Op::ValBurst { s, t, dt, n } => match iobj(*s) {
            Ok(o) => digest((0..*n).map(|i| o.value(t + dt * i as f64))),
            Err(e) => e,
        },
        Op::Df { s, a, b } => match cobj(*s) {
            Ok(o) => o.df(*a, *b),
            Err(e) => e,
        },
        Op::DfBurst { s, a, b, n } => match cobj(*s) {
            Ok(o) => digest((0..*n).map(|i| o.df(*a, *b + 3 * i))),
            Err(e) => e,
        },
        Op::Pv { b, c, settle } => match (bobj(*b), cobj(*c)) {
            (Ok(b), Ok(c)) => c.pv(b, *settle),
            (Err(e), _) | (_, Err(e)) => e,
        },
        Op::PvBurst { b, c, settle, step, n } => match (bobj(*b), cobj(*c)) {
            (Ok(b), Ok(c)) => digest((0..*n).map(|i| c.pv(b, settle + step * i))),
            (Err(e), _) | (_, Err(e)) => e,
        },
        Op::BondId { b } => match bobj(*b) {
            Ok(b) => Out::Text(b.id()),
            Err(e) => e,
        },
        Op::Build { s, c, at } => {
            let moved;
            let mut spec = &uni().specs[*s];
            if unsafe { SHIFT } > 0 {
                moved = rt::host(|| later_spec(spec, unsafe { SHIFT }));
                spec = &moved;
            }
            let o = make(spec);
            rt::host(|| {
                if let Some(c) = cx::cur() {
                    if c.record {
                        // faults are meant for the construction; the probes that follow are fault free
                        c.made_failed = Some(c.rec.casts_failed.len());
                        c.script.clear();
                        c.limit = None;
                    }
                }
            });
            let mut v = vec![];
            match &o {
                Obj::I(Ok(i)) => {
                    for t in at {
                        v.push(i.value(*t));
                    }
                }
                Obj::C(Ok(i)) => {
                    if let Spec::Curve { settle, .. } = spec {
                        for t in at {
                            v.push(i.df(*settle, settle + *t as i64));
                        }
                    }
                }
                Obj::B(Some(b)) => {
                    v.push(Out::Text(b.id()));
                    match cobj(*c) {
                        Ok(c) => {
                            for t in at {
                                v.push(c.pv(&**b, *t as i64));
                            }
                        }
                        Err(e) => v.push(e),
                    }
                }
                Obj::I(Err(e)) | Obj::C(Err(e)) => v.push(e.clone()),
                Obj::B(None) => v.push(Out::None),
            }
            Out::List(v)
        }
        Op::Refit { kind, prec, first, then, ts } => match interp(*kind, *prec, Some(first), then, &[]) {
            Ok(i) => Out::List(ts.iter().map(|t| i.value(*t)).collect()),
            Err(e) => e,
        },
        Op::Dcf { dc, prec, a, b } => dcf(*dc, *prec, *a, *b),
        Op::Date { k, day: d, n } => {
            let d0 = rt::host(|| date(*d));
            match k {
                DK::AddYears => date_out(d0.checked_add_years(Years::new(*n as i32))),
                DK::AddMonths => date_out(d0.checked_add_months(Months::new(*n as u32))),
                DK::SubMonths => date_out(d0.checked_sub_months(Months::new(*n as u32))),
                DK::AddDays => date_out(d0.checked_add_days(Days::new(*n as u64))),
                DK::SubDays => date_out(d0.checked_sub_days(Days::new(*n as u64))),
                DK::Succ => date_out(d0.succ_opt()),
                DK::Pred => date_out(d0.pred_opt()),
                DK::Roll => date_out(d0.weekend_roll()),
                DK::Ymd => {
                    let (y, m, dd) = rt::host(|| model::civil(*d));
                    let x = Date::from_ymd(y as i32, m as u32, dd as u32);
                    let o = date_out(x);
                    let t = x.map(|x| format!("{x} {}", x.leap_year())).unwrap_or_default();
                    Out::List(vec![o, Out::Text(t)])
                }
                DK::Parts => {
                    let (y, m, dd, n, l) = (d0.year(), d0.month(), d0.day(), d0.serial_date(), d0.leap_year());
                    rt::host(|| Out::Text(format!("{y} {m} {dd} {n} {l}")))
                }
                DK::Cmp => {
                    let d1 = rt::host(|| date(*n));
                    let h = |d: Date| {
                        use std::hash::{Hash, Hasher};
                        let mut s = std::hash::DefaultHasher::new();
                        d.hash(&mut s);
                        s.finish()
                    };
                    let (o, e, h) = (d0.cmp(&d1), d0 == d1, h(d0) == h(d1));
                    rt::host(|| Out::Text(format!("{o:?} {e} {h}")))
                }
                DK::Sub => {
                    let d1 = rt::host(|| date(*n));
                    Out::Int(d0 - d1)
                }
            }
        }
        Op::Roll { cal, day, per, conv } => roll(*cal, *day, *per, *conv),
        Op::CalDay { cal, k, day } => cal_day(*cal, *k, *day),
        Op::CalYear { cal, orthodox, year } => with_c(*cal, |c| Out::Int(i64::from(if *orthodox { c.orthodox_easter_monday(*year) } else { c.easter_monday(*year) }))),
        Op::CalBurst { cal, k, day, step, n } => digest((0..*n).map(|i| cal_day(*cal, *k, day + step * i))),
        Op::NewCal { cal, day, n } => with_new(*cal, |c| {
            let mut v = vec![];
            for i in 0..*n {
                let Some(d) = rt::host(|| naive(day + i)) else { break };
                v.push(Out::Bool(c.is_business_day(d)));
            }
            if let (Some(a), Some(b), true) = rt::host(|| (naive(*day), naive(day + 20), *n > 3)) {
                v.push(Out::Int(i64::from(c.end_of_month(a).num_days_from_ce())));
                v.push(Out::Int(c.business_days_between(a, b, None, None)));
            }
            Out::List(v)
        }),
        Op::Repeat { of, n } => digest((0..*n).map(|_| run_op(&uni().ops[*of]))),
        Op::Bdb { cal, a, b, f, l } => {
            let (x, y) = rt::host(|| (naive(*a).unwrap(), naive(*b).unwrap()));
            Out::Int(with_c(*cal, |c| c.business_days_between(x, y, *f, *l)))
        }
        Op::Market { m, bp } => {
            rt::host(|| plug::market_set(*m, *bp));
            Out::Unit
        }
        Op::Flip { cal, day } => {
            rt::host(|| plug::cal_flip(*cal, *day as i32));
            Out::Unit
        }
        Op::Outage { cal, on } => {
            rt::host(|| unsafe { plug::CALS[*cal].outage = *on });
            Out::Unit
        }
    }
}
thread_local! { static LOC: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub static mut HARNESS_PANIC: bool = false;
pub static mut LAST_LOC: String = String::new();
static mut HOOK: usize = 0;
/// only where no thread can be preempted while it holds the lock of the hook
pub static mut HOOK_WATCHED: bool = false;
/// Is the process's panic hook still the one installed by the user (the simulator)? Not to be asked while unwinding.
pub fn hook_is_ours() -> bool {
    if std::thread::panicking() || !unsafe { HOOK_WATCHED } {
        return true;
    }
    let h = std::panic::take_hook();
    let at = std::ptr::from_ref(&*h).cast::<u8>() as usize;
    std::panic::set_hook(h);
    at == unsafe { HOOK }
}
pub fn hook() {
    // not zero sized, so that it has an address of its own
    let mut mark = [1u8; 16];
    mark[3] = 2;
    let h = Box::new(move |info: &std::panic::PanicHookInfo<'_>| {
        rt::host(|| {
            std::hint::black_box(&mark);
            if info.payload().is::<cx::Injected>() {
                return;
            }
            if let Some(l) = info.location() {
                if l.file().starts_with("src/") {
                    unsafe { HARNESS_PANIC = true };
                    if std::env::var("QSIM_DEBUG").is_ok() {
                        eprintln!("harness panic: {info}");
                    }
                }
                unsafe { LAST_LOC = format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line()) };
            }
        });
    });
    unsafe { HOOK = std::ptr::from_ref(&*h).cast::<u8>() as usize };
    std::panic::set_hook(h);
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if e.is::<cx::Injected>() {
        INJECTED.into()
    } else if e.is::<cx::Runaway>() {
        RUNAWAY.into()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        format!("lib: {s}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("lib: {s}")
    } else {
        "lib: other payload".into()
    }
}
/// the same call about dates `by` days, or times a little, later
pub fn later(op: &Op, by: i64) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Val { t, .. } | Op::ValBurst { t, .. } => *t += by as f64 / 4096.0,
        Op::Df { b, .. } | Op::DfBurst { b, .. } | Op::Bdb { b, .. } | Op::Dcf { b, .. } => *b += by,
        Op::Pv { settle, .. } | Op::PvBurst { settle, .. } => *settle += by,
        Op::Date { day, .. } | Op::Roll { day, .. } | Op::CalDay { day, .. } | Op::CalBurst { day, .. } | Op::NewCal { day, .. } => {
            if *day + by <= model::max_day() {
                *day += by;
            }
        }
        _ => {}
    }
    o
}
/// by how much the objects a call builds have moved (C12, C18)
static mut SHIFT: i64 = 0;
pub fn shift(by: i64) {
    unsafe { SHIFT = by };
}
fn later_spec(s: &Spec, by: i64) -> Spec {
    let mut s = s.clone();
    match &mut s {
        Spec::Interp { pts, .. } => {
            for p in pts {
                p.0 += by as f64 / 4096.0;
            }
        }
        Spec::Curve { settle, mats, .. } => {
            *settle += by;
            for m in mats {
                *m += by;
            }
        }
        Spec::Bond { issue, first, pen, mat, .. } => {
            for d in [issue, first, pen, mat] {
                *d += by;
            }
        }
    }
    s
}
/// Runs one operation to its result, with the given context installed.
pub fn call(op: &Op, c: &mut Cx) -> Out {
    cx::push(c);
    let r = catch_unwind(AssertUnwindSafe(|| rt::lib(|| run_op(op))));
    cx::pop(c);
    match r {
        Ok(o) => o,
        Err(e) => Out::Panic(panic_text(&*e)),
    }
}
