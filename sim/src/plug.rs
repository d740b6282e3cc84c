//! Simulated plug-ins: what a user of qlab supplies. Their data (markets, calendars) can change and their calls fail.
#![allow(static_mut_refs, dead_code)]
use crate::cx::{self, Act, Seam, Todo};
use crate::model;
use crate::rt;
use crate::simval::SimVal;
use chrono::{Datelike, NaiveDate};
use qlab_error::{ComputeError, InterpolationError, QLabError, QLabResult};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_time::date::Date;
use qlab_time::day_count::DayCount;
use qlab_time::period::days::Days;
use qlab_time::period::months::Months;
use qlab_time::period::years::Years;
use qlab_time::period::Period;
use std::collections::BTreeMap;

// ---- dates ---------------------------------------------------------------------------------------------
pub fn naive(n: i64) -> Option<NaiveDate> {
    NaiveDate::from_num_days_from_ce_opt(i32::try_from(n).ok()?)
}
pub fn date(n: i64) -> Date {
    Date::from(naive(n).expect("date in range"))
}
pub fn day(d: Date) -> i64 {
    i64::from(d.serial_date())
}

// ---- number types ----------------------------------------------------------------------------------------
pub trait Prec: Value {
    const NAME: &'static str;
    const EPS: f64;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn key(self) -> String;
}
impl Prec for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = 1e-12;
    fn of(v: f64) -> Self {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn key(self) -> String {
        format!("{:016x}", canon(self))
    }
}
impl Prec for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = 1e-5;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f(self) -> f64 {
        f64::from(self)
    }
    fn key(self) -> String {
        if self.is_nan() {
            "nan".into()
        } else {
            format!("{:08x}", self.to_bits())
        }
    }
}
impl Prec for SimVal {
    const NAME: &'static str = "sim";
    const EPS: f64 = 1e-12;
    fn of(v: f64) -> Self {
        SimVal(v)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn key(self) -> String {
        format!("{:016x}", canon(self.0))
    }
}
fn canon(v: f64) -> u64 {
    if v.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        v.to_bits()
    }
}

// ---- markets -----------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Market {
    /// level in basis points, changed while the simulation runs
    pub bp: i64,
    pub version: u64,
    /// beyond this time the plug-in has no data (f64::INFINITY: unlimited)
    pub horizon: f64,
}
pub static mut MARKETS: Vec<Market> = vec![];
pub fn market_set(m: usize, bp: i64) {
    unsafe {
        if let Some(x) = MARKETS.get_mut(m) {
            x.bp = bp;
            x.version += 1;
        }
    }
}

// ---- interpolator --------------------------------------------------------------------------------------------
#[derive(Debug)]
pub struct SimInterp<V: Prec> {
    pub market: usize,
    pub pts: Vec<(V, V)>,
}
/// interpolators that exist
pub static mut ALIVE: i64 = 0;
impl<V: Prec> Clone for SimInterp<V> {
    fn clone(&self) -> Self {
        unsafe { ALIVE += 1 };
        SimInterp { market: self.market, pts: self.pts.clone() }
    }
}
impl<V: Prec> Drop for SimInterp<V> {
    fn drop(&mut self) {
        unsafe { ALIVE -= 1 };
    }
}
impl<V: Prec> Default for SimInterp<V> {
    fn default() -> Self {
        unsafe { ALIVE += 1 };
        SimInterp { market: cx::cur().map_or(0, |c| c.market), pts: vec![] }
    }
}
fn ierr<V>(kind: i64, t: V) -> InterpolationError<V> {
    match kind % 4 {
        0 => InterpolationError::OutOfUpperBound(t),
        1 => InterpolationError::OutOfLowerBound(t),
        2 => InterpolationError::PointOrderError,
        _ => InterpolationError::InsufficientPointsError(kind as usize),
    }
}
/// what the plug-in answers: piecewise linear through the fitted points (flat outside) plus the market's level
pub fn sim_y(pts: &[(f64, f64)], bp: i64, t: f64) -> f64 {
    let shift = bp as f64 * 1e-4;
    let mut y = 0.0;
    if let Some(f) = pts.first() {
        y = f.1;
        for w in pts.windows(2) {
            let (a, b) = (w[0], w[1]);
            if t > a.0 {
                y = if t >= b.0 || b.0 <= a.0 { b.1 } else { a.1 + (b.1 - a.1) * ((t - a.0) / (b.0 - a.0)) };
            }
        }
    }
    y + shift
}
impl<V: Prec> Interpolator for SimInterp<V> {
    type Value = V;
    fn try_fit(mut self, pts: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        rt::host(|| {
            let t = cx::seam(Seam::Fit, None);
            if let Some(c) = cx::cur() {
                if c.record {
                    c.rec.fits.push(pts.iter().map(|p| (p.0.f(), p.1.f())).collect());
                }
            }
            if let Todo::Fail(k) = t {
                return Err(ierr(k, V::of(0.0)));
            }
            self.pts = pts.to_vec();
            Ok(self)
        })
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        rt::host(|| {
            if let Some(c) = cx::cur().filter(|c| c.record) {
                c.rec.asked_t.push(t.f());
            }
            if let Todo::Fail(k) = cx::seam(Seam::Value, None) {
                return Err(ierr(k, t));
            }
            let m = unsafe { &MARKETS[self.market] };
            if t.f() > m.horizon {
                if let Some(c) = cx::cur() {
                    let k = c.counts[Seam::Value as usize];
                    c.fail(Seam::Value, k);
                    c.fired.push(cx::Fired { seam: Seam::Value, act: Act::Fail(0), msg: String::new() });
                }
                return Err(InterpolationError::OutOfUpperBound(t));
            }
            let pts: Vec<(f64, f64)> = self.pts.iter().map(|p| (p.0.f(), p.1.f())).collect();
            let y = V::of(sim_y(&pts, m.bp, t.f()));
            if let Some(c) = cx::cur() {
                if c.record {
                    c.rec.values.push((t.f(), y.f()));
                }
            }
            Ok(y)
        })
    }
}

// ---- day count -----------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug)]
pub struct SimDayCount;
impl DayCount for SimDayCount {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let todo = rt::host(|| {
            if let Some(c) = cx::cur().filter(|c| c.record) {
                c.rec.asked_dc.push((a.serial_date(), b.serial_date()));
            }
            cx::seam(Seam::DayCount, None)
        });
        if let Todo::Fail(k) = todo {
            return rt::host(|| {
                let c = cx::cur().unwrap();
                let msg = format!("injected day count failure {} of {}", c.counts[Seam::DayCount as usize], c.op);
                let e: QLabError = match k % 4 {
                    0 => ComputeError::CastNumberError(msg.into()).into(),
                    1 => ComputeError::InvalidInput(msg.into()).into(),
                    2 => ComputeError::ZeroDivisionError.into(),
                    _ => ComputeError::InterpolationError.into(),
                };
                if let Some(f) = c.fired.iter_mut().rev().find(|f| f.seam == Seam::DayCount && matches!(f.act, Act::Fail(_)) && f.msg.is_empty()) {
                    f.msg = crate::obj::err_text(&e);
                }
                Err(e)
            });
        }
        let n = b - a;
        let num = V::from_i64(n).ok_or_else(|| ComputeError::CastNumberError(format!("{n}").into()))?;
        let den = V::from_i32(365).ok_or_else(|| ComputeError::CastNumberError("365".into()))?;
        let v = num / den;
        rt::host(|| {
            if let Some(c) = cx::cur() {
                if c.record {
                    c.rec.dayfracs.push((a.serial_date(), b.serial_date(), v.to_f64().unwrap_or(f64::NAN)));
                }
            }
        });
        Ok(v)
    }
}

// ---- calendars -----------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Default)]
pub struct CalPattern {
    pub seed: u64,
    /// per mille of ordinary days closed at random
    pub closed_pm: u64,
    pub weekends: bool,
    /// closed intervals (inclusive)
    pub closed: Vec<(i64, i64)>,
    /// open days inside closed intervals
    pub open: Vec<i64>,
}
#[derive(Clone, Debug, Default)]
pub struct CalState {
    pub pat: CalPattern,
    pub flips: BTreeMap<i64, bool>,
    pub outage: bool,
}
pub static mut CALS: Vec<CalState> = vec![];
pub static mut CAL_QUERIES: u64 = 0;
pub fn cal_open(c: usize, n: i64) -> bool {
    let s = unsafe { &CALS[c] };
    if let Some(v) = s.flips.get(&n) {
        return *v;
    }
    if s.outage {
        return false;
    }
    base_open(&s.pat, n)
}
pub fn base_open(p: &CalPattern, n: i64) -> bool {
    if p.open.contains(&n) {
        return true;
    }
    if p.closed.iter().any(|r| n >= r.0 && n <= r.1) {
        return false;
    }
    if p.weekends && model::weekday(n) > 4 {
        return false;
    }
    crate::rng::derive(p.seed, n as u64, 17) % 1000 >= p.closed_pm
}
pub fn cal_flip(c: usize, n: i32) {
    let c = c % unsafe { CALS.len().max(1) };
    let v = !cal_open(c, i64::from(n));
    unsafe {
        CALS[c].flips.insert(i64::from(n), v);
    }
}
fn ask(id: usize, n: i64) -> bool {
    rt::host(|| {
        let before = cx::cur().is_some_and(|c| {
            let k = c.counts[Seam::Cal as usize] + 1;
            c.script.iter().any(|i| i.seam == Seam::Cal && (i.k == k && matches!(i.act, Act::FlipAsked(_, 1)) || i.k <= k && matches!(i.act, Act::ChurnFrom(_))))
        });
        if let Some(c) = cx::cur().filter(|c| c.record) {
            c.rec.asked_day.push(n as i32);
        }
        // with FlipAsked(_,1) the day flips right after the answer was given
        let early = cal_open(id, n);
        cx::seam(Seam::Cal, Some((id, n as i32)));
        let open = if before { early } else { cal_open(id, n) };
        if let Some(c) = cx::cur() {
            if c.record {
                c.rec.cal.push((id, n as i32, open));
            }
            if c.counts[Seam::Cal as usize] > c.cal_budget.saturating_mul(4) {
                std::panic::resume_unwind(Box::new(cx::Runaway));
            }
        }
        open
    })
}
/// implements `calendar::Calendar`
#[derive(Clone, Copy, Debug)]
pub struct CalC(pub usize);
impl calendar::Calendar for CalC {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        ask(self.0, i64::from(d.num_days_from_ce()))
    }
}
/// implements `qlab_time::calendar::Calendar` directly
#[derive(Clone, Copy, Debug)]
pub struct CalQ(pub usize);
impl qlab_time::calendar::Calendar for CalQ {
    fn is_business_day(&self, d: Date) -> bool {
        ask(self.0, day(d))
    }
}

// ---- periods -------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Per {
    D(u64),
    M(u32),
    Y(i32),
}
impl Per {
    pub fn model(self, n: i64) -> Option<i64> {
        match self {
            Per::D(k) => model::add_days(n, k),
            Per::M(k) => model::add_months(n, i64::from(k)),
            Per::Y(k) => model::add_years(n, i64::from(k)),
        }
    }
}
/// user period: may fail, otherwise delegates to the library's own
#[derive(Clone, Copy, Debug)]
pub struct SimPeriod(pub Per);
impl Period for SimPeriod {
    fn checked_add(self, d: Date) -> Option<Date> {
        let t = rt::host(|| {
            if let Some(c) = cx::cur().filter(|c| c.record) {
                c.rec.asked_per.push(d.serial_date());
            }
            cx::seam(Seam::Period, None)
        });
        if let Todo::Fail(_) = t {
            return None;
        }
        let r = match self.0 {
            Per::D(k) => Days::new(k).checked_add(d),
            Per::M(k) => Months::new(k).checked_add(d),
            Per::Y(k) => Years::new(k).checked_add(d),
        };
        rt::host(|| {
            if let Some(c) = cx::cur() {
                if c.record {
                    c.rec.periods.push((d.serial_date(), r.map(|x| x.serial_date())));
                }
            }
        });
        r
    }
}
