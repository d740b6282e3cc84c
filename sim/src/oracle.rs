//! Oracles of C06-C11: judge one call from the history of plug-in calls made during it, against the reference model.
#![allow(static_mut_refs, dead_code)]
use crate::calreg;
use crate::cx::{Act, Cx, Seam, NSEAM};
use crate::exec::uni;
use crate::model::{self, Conv};
use crate::obj::{self, Out, EK, INJECTED, RUNAWAY};
use crate::plug::{self, Per};
use crate::uni::*;
use std::collections::BTreeMap;

type V = Option<(String, String)>;
fn bad(class: &str, msg: String) -> V {
    Some((class.into(), msg))
}
pub fn conv(dc: u8) -> Conv {
    match dc {
        obj::A360 => Conv::A360,
        obj::A365 => Conv::A365,
        obj::T360 => Conv::T360,
        _ => Conv::Sim,
    }
}
fn eps(prec: u8) -> f64 {
    if prec == 1 {
        2e-4
    } else {
        1e-10
    }
}
pub fn round(prec: u8, v: f64) -> f64 {
    if prec == 1 {
        f64::from(v as f32)
    } else {
        v
    }
}
/// interval arithmetic
#[derive(Clone, Copy, Debug)]
pub struct Iv(pub f64, pub f64);
impl Iv {
    fn of(v: &[f64]) -> Iv {
        Iv(v.iter().copied().fold(f64::INFINITY, f64::min), v.iter().copied().fold(f64::NEG_INFINITY, f64::max))
    }
    fn scale(self, k: f64) -> Iv {
        let (a, b) = (self.0 * k, self.1 * k);
        Iv(a.min(b), a.max(b))
    }
    fn plus(self, o: Iv) -> Iv {
        Iv(self.0 + o.0, self.1 + o.1)
    }
    fn exp(self) -> Iv {
        Iv(self.0.exp(), self.1.exp())
    }
    fn has(self, v: f64, tol: f64) -> bool {
        v >= self.0 - tol && v <= self.1 + tol
    }
}

struct CurveS<'a> {
    dc: u8,
    kind: u8,
    prec: u8,
    settle: i64,
    mats: &'a [i64],
    ys: &'a [f64],
}
fn curve_s(i: usize) -> Option<CurveS<'static>> {
    match &uni().specs[i] {
        Spec::Curve { dc, kind, prec, settle, mats, ys, .. } => Some(CurveS { dc: *dc, kind: *kind, prec: *prec, settle: *settle, mats, ys }),
        _ => None,
    }
}
impl CurveS<'_> {
    fn t(&self, d: i64) -> Option<f64> {
        model::dcf(conv(self.dc), self.settle, d)
    }
    /// yields available at time t: what was delivered during the call, or what an identically fitted built-in interpolator says
    fn yields(&self, c: &Cx, t: f64) -> Result<Vec<f64>, String> {
        if self.kind == obj::SIM {
            let tol = eps(self.prec) * (1.0 + t.abs());
            let v: Vec<f64> = c.rec.values.iter().filter(|p| (p.0 - t).abs() <= tol).map(|p| p.1).collect();
            if v.is_empty() {
                return Err(format!("no yield was requested for t={t}"));
            }
            Ok(v)
        } else {
            let pts: Vec<(f64, f64)> = self.mats.iter().zip(self.ys).filter_map(|(m, y)| Some((self.t(*m)?, *y))).collect();
            let i = obj::interp(self.kind, self.prec, None, &pts, &[]).map_err(|e| format!("twin {}", e.s()))?;
            match i.value(round(self.prec, t)) {
                Out::Num(v, _) => Ok(vec![v]),
                o => Err(format!("twin {}", o.s())),
            }
        }
    }
    fn valid(&self) -> bool {
        self.mats.len() == self.ys.len()
    }
}
/// does this call have to fail, and with what?
struct Failed {
    interp: bool,
    daycount: Vec<String>,
    cast: bool,
    period: bool,
}
impl Failed {
    fn of(c: &Cx) -> Failed {
        let f = |s: Seam| c.fired.iter().any(|x| x.seam == s && matches!(x.act, Act::Fail(_)));
        Failed {
            interp: f(Seam::Value) || f(Seam::Fit),
            daycount: c.fired.iter().filter(|x| x.seam == Seam::DayCount && matches!(x.act, Act::Fail(_))).map(|x| x.msg.clone()).collect(),
            cast: !c.rec.casts_failed.is_empty(),
            period: f(Seam::Period),
        }
    }
    fn any(&self) -> bool {
        self.interp || self.cast || !self.daycount.is_empty()
    }
    fn accepts(&self, o: &Out) -> bool {
        match o {
            Out::Err(EK::Interp, _) if self.interp => true,
            Out::Err(EK::Cast, _) if self.cast => true,
            Out::Err(_, t) => self.daycount.iter().any(|d| d == t),
            _ => false,
        }
    }
    fn text(&self) -> String {
        let mut v = vec![];
        if self.interp {
            v.push("the interpolator failed".to_string());
        }
        if self.cast {
            v.push("a number conversion failed".to_string());
        }
        for d in &self.daycount {
            v.push(format!("the day count failed with {d}"));
        }
        v.join(" and ")
    }
}

/// called before the operation starts
pub fn before(prop: &str, op: &Op, c: &mut Cx) {
    // how long a search may take is settled against the calendar as it stands: C10 only
    if matches!(prop, "C13" | "C19") {
        c.budget = budget(op).map(|u| 8 * u + 64);
        c.cal_budget = c.budget[Seam::Cal as usize];
    }
    if !c.record || prop != "C10" {
        return;
    }
    if let Op::Roll { cal, day, per, conv } = op {
        let (_, passed) = expected_roll(*cal, *day, *per, *conv);
        c.cal_budget = 4 * passed + 150;
    }
}
/// how many questions of each kind a call has a use for, in proportion to what it was given
fn budget(op: &Op) -> [u64; NSEAM] {
    let mut u = [0; NSEAM];
    let mut add = |s: Seam, n: u64| u[s as usize] += n;
    let points = |s: usize| match &uni().specs[s] {
        Spec::Curve { mats, .. } => mats.len() as u64,
        _ => 0,
    };
    let flows = |s: usize| match &uni().specs[s] {
        Spec::Bond { first, pen, .. } => ((pen - first).max(0) / 180 + 3) as u64,
        _ => 0,
    };
    let factors = |add: &mut dyn FnMut(Seam, u64), n: u64, points: u64| {
        add(Seam::Value, 2 * n);
        add(Seam::DayCount, 2 * n);
        add(Seam::Cast, 16 * n);
        add(Seam::Arith, n * (8 * points + 256));
    };
    let members = |c: &CalRef| match c {
        CalRef::J2(..) => 2,
        CalRef::J3(..) => 3,
        CalRef::J4(..) => 4,
        _ => 1,
    };
    match op {
        Op::Df { s, .. } => factors(&mut add, 1, points(*s)),
        Op::Pv { b, c, .. } => factors(&mut add, flows(*b), points(*c)),
        Op::Build { s, c, at } => {
            let n = at.len() as u64;
            match &uni().specs[*s] {
                Spec::Curve { mats, .. } => {
                    let p = mats.len() as u64;
                    add(Seam::Fit, 1);
                    add(Seam::DayCount, p);
                    add(Seam::Cast, 16 * p);
                    add(Seam::Arith, 48 * p + 48);
                    factors(&mut add, n, p);
                }
                Spec::Bond { .. } => {
                    add(Seam::Cast, 16);
                    add(Seam::Arith, 16 + 4 * flows(*s));
                    factors(&mut add, n * flows(*s), points(*c));
                }
                Spec::Interp { .. } => {}
            }
        }
        Op::Dcf { .. } => {
            add(Seam::Cast, 16);
            add(Seam::Arith, 48);
        }
        // at most the days between two dates, or of a month
        Op::Bdb { cal, a, b, .. } => add(Seam::Cal, members(cal) * ((b - a).unsigned_abs() + 2)),
        Op::CalDay { cal, k: CK::Eom | CK::Last, .. } => add(Seam::Cal, members(cal) * 2000),
        Op::CalDay { cal, .. } | Op::CalYear { cal, .. } => add(Seam::Cal, members(cal)),
        Op::Roll { cal, .. } => {
            add(Seam::Period, 1);
            add(Seam::Cal, members(cal) * 4000);
        }
        _ => return [u64::MAX / 16; NSEAM],
    }
    u
}
fn c13(op: &Op, c: &Cx, out: &Out) -> V {
    let mut u = budget(op);
    if let Op::Roll { cal, .. } | Op::CalDay { cal, k: CK::Eom | CK::Last, .. } = op {
        // the days it went over
        let days = c.rec.cal.iter().map(|q| i64::from(q.1));
        let span = days.clone().max().unwrap_or(0) - days.min().unwrap_or(0) + 1;
        let m = match cal {
            CalRef::J2(..) => 2,
            CalRef::J3(..) => 3,
            CalRef::J4(..) => 4,
            _ => 1,
        };
        u[Seam::Cal as usize] = m * span.unsigned_abs();
    }
    for s in 0..NSEAM {
        if c.counts[s] > 8 * u[s] + 64 {
            let lasting = c.fired.iter().find(|f| f.act.lasting()).map_or("none", |f| f.act.name());
            return bad("questions", format!("{} questions of kind {} where {} do (lasting fault: {lasting}), the caller got: {}", c.counts[s], crate::cx::SEAM_NAMES[s], u[s], out.s()));
        }
    }
    None
}
/// does a call end with the first failure?
fn c19(c: &Cx, out: &Out) -> V {
    let (s, k) = c.failed?;
    if c.after > 16 {
        return bad("goes-on", format!("{} further questions after the failure at question {k} of kind {}; the caller got: {}", c.after, crate::cx::SEAM_NAMES[s as usize], out.s()));
    }
    None
}
/// were only questions asked that the call's own arguments give rise to?
fn c15(op: &Op, c: &Cx, out: &Out) -> V {
    // times the interpolator may be asked for, and dates whose distance from settlement may be measured
    let (mut dates, mut fit): (Vec<i64>, bool) = (vec![], false);
    let mut curve = None;
    // days the calendar may be asked about
    let mut days: Option<Box<dyn Fn(i64) -> bool>> = None;
    let mut from = None;
    match op {
        Op::Df { s, a, b } => {
            curve = curve_s(*s);
            dates = vec![*a, *b];
        }
        Op::Build { s, .. } => {
            curve = curve_s(*s);
            dates = curve.as_ref()?.mats.to_vec();
            fit = true;
        }
        Op::Pv { b, c, settle } => {
            curve = curve_s(*c);
            dates = bond_flows(*b)?.0?.iter().filter(|f| f.due > *settle).map(|f| f.pay).collect();
            dates.push(*settle);
        }
        Op::Bdb { a, b, .. } => {
            let (x, y) = (*a.min(b), *a.max(b));
            days = Some(Box::new(move |d| d >= x && d <= y));
        }
        Op::CalDay { cal, k, day } => {
            let d0 = *day;
            match k {
                CK::Eom => {
                    let (y, m, _) = model::civil(d0);
                    let last = model::serial(y, m, model::dim(y, m));
                    let ans = answers(*cal, c);
                    // any day of the month, and those before it as far as the calendar reports closures
                    let mut lo = last;
                    while ans.get(&lo).is_some_and(|v| v.0) {
                        lo -= 1;
                    }
                    lo = lo.min(model::serial(y, m, 1));
                    days = Some(Box::new(move |d| d >= lo && d <= last));
                }
                CK::Biz | CK::BizQ | CK::Hol | CK::HolQ => days = Some(Box::new(move |d| d == d0)),
                _ => {}
            }
        }
        Op::Roll { cal, day, per, conv } => {
            from = Some(*day);
            if let (Some(s), true) = (per.model(*day), *conv != 0) {
                let ans = answers(*cal, c);
                let reach = |dir: i64| {
                    let mut d = s;
                    while ans.get(&d).is_some_and(|v| v.0) {
                        d += dir;
                    }
                    d
                };
                let (mut lo, mut hi) = (reach(-1), reach(1));
                match conv {
                    1 => lo = s,
                    3 => hi = s,
                    _ => {}
                }
                days = Some(Box::new(move |d| d >= lo && d <= hi));
            }
        }
        _ => return None,
    }
    if let Some(d) = c.rec.asked_day.iter().find(|d| !days.as_ref().is_some_and(|f| f(i64::from(**d)))) {
        return bad("foreign", format!("the calendar was asked about day {d}, which the call has nothing to do with; the caller got: {}", out.s()));
    }
    if let (Some(f), Some(p)) = (from, c.rec.asked_per.iter().find(|p| Some(i64::from(**p)) != from)) {
        return bad("foreign", format!("the period was applied to day {p} instead of {f}; the caller got: {}", out.s()));
    }
    if let Some(k) = curve {
        if let Some((a, b)) = c.rec.asked_dc.iter().find(|(a, b)| i64::from(*a) != k.settle || !dates.contains(&i64::from(*b)) && i64::from(*b) != k.settle) {
            return bad("foreign", format!("the day count was asked for {a} to {b}, which the call has nothing to do with (settlement {}, dates {dates:?}); the caller got: {}", k.settle, out.s()));
        }
        // the yield at settlement itself has no weight
        let ts: Vec<f64> = if fit { vec![] } else { dates.iter().filter(|d| **d != k.settle || dates.iter().all(|x| *x <= k.settle)).filter_map(|d| k.t(*d)).collect() };
        if let Some(t) = c.rec.asked_t.iter().find(|t| !ts.iter().any(|x| (*t - x).abs() <= eps(k.prec) * (1.0 + x.abs()))) {
            return bad("foreign", format!("the interpolator was asked for the yield at {t}, which the call has nothing to do with (times {ts:?}); the caller got: {}", out.s()));
        }
    }
    None
}
pub fn check(prop: &str, op: &Op, c: &Cx, out: &Out) -> V {
    if prop == "C13" {
        return c13(op, c, out);
    }
    if prop == "C15" {
        return c15(op, c, out);
    }
    if prop == "C19" {
        return c19(c, out);
    }
    if c.fired.iter().any(|f| f.act.panics()) {
        if *out != Out::Panic(INJECTED.into()) {
            return bad("swallowed", format!("the panic of a plug-in did not reach the caller, who got: {}", out.s()));
        }
        return None;
    }
    match out {
        Out::Panic(t) if t == RUNAWAY => {
            return bad("runaway", format!("more than {} questions to the calendar", c.cal_budget));
        }
        Out::Panic(t) => return bad("panic", format!("{t} at {}", unsafe { &crate::exec::LAST_LOC })),
        _ => {}
    }
    match prop {
        "C06" => c06(op, c, out),
        "C07" => c07(op, c, out),
        "C08" => c08(op, c, out),
        "C09" => c09(op, c, out),
        "C10" => c10(op, c, out),
        "C11" => c11(op, c, out),
        _ => None,
    }
}

fn c06(op: &Op, c: &Cx, out: &Out) -> V {
    let failed = Failed::of(c);
    match op {
        Op::Df { s, a, b } => {
            let k = curve_s(*s)?;
            if matches!(out, Out::Text(_)) {
                return None;
            }
            let invalid = b < a || *a < k.settle;
            if failed.any() {
                if failed.accepts(out) || invalid && matches!(out, Out::Err(EK::Invalid, _)) {
                    return None;
                }
                // a built-in interpolator that has no value for one of the dates is a failure as well
                let refuses = |d: i64| k.t(d).is_some_and(|t| k.kind != obj::SIM && k.yields(c, t).is_err());
                if matches!(out, Out::Err(EK::Interp, _)) && (refuses(*b) || *a != k.settle && refuses(*a)) {
                    return None;
                }
                return bad("failure-lost", format!("{} during the call, but the caller got: {}", failed.text(), out.s()));
            }
            if invalid {
                return if matches!(out, Out::Err(EK::Invalid, _)) { None } else { bad("not-rejected", format!("dates in the wrong order or before settlement gave: {}", out.s())) };
            }
            df_value(&k, c, *a, *b, out)
        }
        Op::Build { s, at, .. } if at.is_empty() => {
            let k = curve_s(*s)?;
            let Out::List(v) = out else { return bad("answer", out.s()) };
            let first = v.first().cloned().unwrap_or(Out::Unit);
            let early = k.mats.iter().any(|m| k.t(*m).is_none());
            if failed.any() {
                if failed.accepts(&first) || (!k.valid() || early) && matches!(first, Out::Err(EK::Invalid, _)) {
                    return None;
                }
                let pts: Vec<(f64, f64)> = k.mats.iter().zip(k.ys).filter_map(|(m, y)| Some((k.t(*m)?, *y))).collect();
                if k.kind != obj::SIM && matches!(first, Out::Err(EK::Interp, _)) && obj::interp(k.kind, k.prec, None, &pts, &[]).is_err() {
                    return None;
                }
                return bad("failure-lost", format!("{} while the curve was built, but the caller got: {}", failed.text(), first.s()));
            }
            if !k.valid() || early {
                return if matches!(first, Out::Err(EK::Invalid, _)) { None } else { bad("not-rejected", format!("invalid curve input gave: {}", first.s())) };
            }
            if k.kind != obj::SIM {
                // the built-in interpolator decides whether the data are acceptable
                let pts: Vec<(f64, f64)> = k.mats.iter().zip(k.ys).filter_map(|(m, y)| Some((k.t(*m)?, *y))).collect();
                let twin = obj::interp(k.kind, k.prec, None, &pts, &[]);
                return match (twin.is_ok(), v.is_empty()) {
                    (true, false) => bad("answer", format!("the curve was refused: {}", first.s())),
                    (false, true) => bad("failure-lost", "the interpolator rejects these points but the curve was built".into()),
                    _ => None,
                };
            }
            if !v.is_empty() {
                return bad("answer", format!("nothing failed but the curve was refused: {}", first.s()));
            }
            let tol = |x: f64| eps(k.prec) * (1.0 + x.abs());
            if c.rec.fits.is_empty() {
                return bad("fit", "the interpolator was never fitted".into());
            }
            for f in &c.rec.fits {
                let ok = f.len() == k.mats.len()
                    && f.iter().zip(k.mats.iter().zip(k.ys)).all(|(p, (m, y))| {
                        let t = k.t(*m).unwrap_or(f64::NAN);
                        (p.0 - t).abs() <= tol(t) && (p.1 - round(k.prec, *y)).abs() <= tol(*y)
                    });
                if !ok {
                    return bad("fit", format!("the interpolator received {f:?} for maturities {:?} (settlement {}) and yields {:?}", k.mats, k.settle, k.ys));
                }
            }
            None
        }
        _ => None,
    }
}
/// the factor is beyond what the number type can hold (or its reciprocal is), so that any rounding is possible
fn overflows(prec: u8, x: &Iv) -> bool {
    let lim = if prec == 1 { 60.0 } else { 300.0 };
    !(x.0.abs() < lim && x.1.abs() < lim)
}
fn df_value(k: &CurveS, c: &Cx, a: i64, b: i64, out: &Out) -> V {
    let (Some(t1), Some(t2)) = (k.t(a), k.t(b)) else { return None };
    let y2 = match k.yields(c, t2) {
        Ok(v) => v,
        Err(e) if e.starts_with("twin") => {
            return if matches!(out, Out::Err(EK::Interp, _)) { None } else { bad("failure-lost", format!("the interpolator has no yield for t={t2} ({e}) but the caller got: {}", out.s())) };
        }
        Err(_) if t2 == 0.0 => vec![0.0],
        Err(e) => return bad("stale", format!("{e}, the caller got: {}", out.s())),
    };
    let mut x = Iv::of(&y2).scale(-t2);
    if a != k.settle {
        let y1 = match k.yields(c, t1) {
            Ok(v) => v,
            Err(e) if e.starts_with("twin") => {
                return if matches!(out, Out::Err(EK::Interp, _)) { None } else { bad("failure-lost", format!("the interpolator has no yield for t={t1} ({e}) but the caller got: {}", out.s())) };
            }
            Err(_) if t1 == 0.0 => vec![0.0],
            Err(e) => return bad("stale", format!("{e}, the caller got: {}", out.s())),
        };
        x = x.plus(Iv::of(&y1).scale(t1));
    }
    let w = x.exp();
    let scale = w.0.abs().max(w.1.abs()) * (1.0 + x.0.abs().max(x.1.abs()));
    match out {
        Out::Num(v, _) if w.has(*v, eps(k.prec) * scale) => None,
        Out::Num(..) if overflows(k.prec, &x) => None,
        _ => bad("answer", format!("from the yields delivered during the call the factor lies in [{}, {}], the caller got: {}", w.0, w.1, out.s())),
    }
}

fn bond_flows(i: usize) -> Option<(Option<Vec<model::Flow>>, u8, &'static str)> {
    match &uni().specs[i] {
        Spec::Bond { prec, id, issue, first, pen, mat, rate, face } => Some((model::flows(*issue, *first, *pen, *mat, round(*prec, *rate), round(*prec, *face)), *prec, id)),
        _ => None,
    }
}
fn bond_needs(i: usize) -> Option<Vec<i64>> {
    match &uni().specs[i] {
        Spec::Bond { prec: 2, issue, first, pen, mat, .. } => model::needs(*issue, *first, *pen, *mat),
        _ => None,
    }
}
fn c07(op: &Op, c: &Cx, out: &Out) -> V {
    let Op::Pv { b, c: ci, settle } = op else { return None };
    let k = curve_s(*ci)?;
    let (flows, prec, _) = bond_flows(*b)?;
    let flows = flows?;
    if let Out::Text(t) = out {
        // the objects could not be built
        return if t == "no bond" { bad("no-bond", "the bond could not be constructed".into()) } else { None };
    }
    let failed = Failed::of(c);
    let due: Vec<&model::Flow> = flows.iter().filter(|f| f.due > *settle).collect();
    if failed.any() {
        if matches!(out, Out::Err(..)) {
            return None;
        }
        return bad("partial", format!("{} during the call, but the caller got a price: {}", failed.text(), out.s()));
    }
    if due.is_empty() {
        return match out {
            Out::Num(v, _) if *v == 0.0 => None,
            _ => bad("answer", format!("nothing is outstanding at {settle}, the caller got: {}", out.s())),
        };
    }
    if *settle < k.settle {
        return if matches!(out, Out::Err(..)) { None } else { bad("partial", format!("no discount factor exists before the curve's settlement date, but the caller got: {}", out.s())) };
    }
    let mut sum = Iv(0.0, 0.0);
    let mut mag = 0.0;
    let mut over = false;
    for f in &due {
        let (Some(t1), Some(t2)) = (k.t(*settle), k.t(f.pay)) else { return None };
        let get = |t: f64| -> Result<Vec<f64>, String> {
            match k.yields(c, t) {
                Err(e) if t == 0.0 && !e.starts_with("twin") => Ok(vec![0.0]),
                r => r,
            }
        };
        let y2 = match get(t2) {
            Ok(v) => v,
            Err(e) if e.starts_with("twin") => return if matches!(out, Out::Err(..)) { None } else { bad("partial", format!("{e} for the flow paid {}, but the caller got: {}", f.pay, out.s())) },
            Err(e) => return bad("missing-flow", format!("flow due {} paid {} amount {}: {e}; the caller got: {}", f.due, f.pay, f.amount, out.s())),
        };
        let mut x = Iv::of(&y2).scale(-t2);
        if *settle != k.settle {
            let y1 = match get(t1) {
                Ok(v) => v,
                Err(e) if e.starts_with("twin") => return if matches!(out, Out::Err(..)) { None } else { bad("partial", format!("{e} for the settlement date, but the caller got: {}", out.s())) },
                Err(e) => return bad("stale", format!("{e}; the caller got: {}", out.s())),
            };
            x = x.plus(Iv::of(&y1).scale(t1));
        }
        over |= overflows(prec, &x);
        let v = x.exp().scale(f.amount);
        mag += v.0.abs().max(v.1.abs()) * (1.0 + x.0.abs().max(x.1.abs()));
        sum = sum.plus(v);
    }
    match out {
        Out::Num(v, _) if sum.has(*v, eps(prec) * (mag + 1e-300)) => None,
        Out::Num(..) if over || mag.is_nan() || mag > 1e30 => None,
        _ => bad(
            "answer",
            format!("{} flows are outstanding; from the yields delivered during the call the price lies in [{}, {}], the caller got: {}", due.len(), sum.0, sum.1, out.s()),
        ),
    }
}

fn c08(op: &Op, c: &Cx, out: &Out) -> V {
    match op {
        Op::Build { s, c: ci, at } => {
            let (flows, prec, id) = bond_flows(*s)?;
            let Out::List(v) = out else { return bad("answer", out.s()) };
            let failed = c.made_failed.unwrap_or(c.rec.casts_failed.len());
            if failed > 0 {
                return if v.first() == Some(&Out::None) { None } else { bad("incomplete", format!("{failed} conversions failed ({:?}) but a bond was constructed: {}", c.rec.casts_failed, out.s())) };
            }
            if let (Some(l), Some(n)) = (c.limit0, bond_needs(*s)) {
                if v.first() != Some(&Out::None) && n.iter().any(|x| x.abs() > l) {
                    return bad("incomplete", format!("the number type holds nothing beyond {l} and {n:?} are needed, but a bond was constructed: {}", out.s()));
                }
            }
            let Some(flows) = flows else {
                return if v.first() == Some(&Out::None) { None } else { bad("incomplete", format!("the schedule cannot be laid out but a bond was constructed: {}", out.s())) };
            };
            if v.first() == Some(&Out::None) {
                return bad("refused", "nothing failed but no bond was constructed".into());
            }
            if v.first() != Some(&Out::Text(id.into())) {
                return bad("answer", format!("the bond is called {} instead of {id}", v[0].s()));
            }
            let k = curve_s(*ci)?;
            let pts: Vec<(f64, f64)> = k.mats.iter().zip(k.ys).filter_map(|(m, y)| Some((k.t(*m)?, *y))).collect();
            for (i, s) in at.iter().enumerate() {
                let set = *s as i64;
                let mut sum = 0.0;
                let mut mag = 0.0;
                for f in flows.iter().filter(|f| f.due > set) {
                    let y = |t: f64| plug::sim_y(&pts, unsafe { plug::MARKETS[0].bp }, t);
                    let (t1, t2) = (k.t(set)?, k.t(f.pay)?);
                    let x = (if set == k.settle { 0.0 } else { t1 * y(t1) }) - t2 * y(t2);
                    sum += f.amount * x.exp();
                    mag += (f.amount * x.exp()).abs() * (1.0 + x.abs());
                }
                match v.get(i + 1) {
                    Some(Out::Num(p, _)) if (p - sum).abs() <= eps(prec) * (mag + 1e-300) => {}
                    o => return bad("answer", format!("priced at {set} the bond is worth {sum} by its contract, but: {}", o.map_or("missing".into(), Out::s))),
                }
            }
            None
        }
        Op::Dcf { dc, prec, a, b } => {
            if *dc == obj::DSIM {
                return None;
            }
            let m = model::dcf(conv(*dc), *a, *b);
            if !c.rec.casts_failed.is_empty() {
                return match out {
                    Out::Err(EK::Cast, _) => None,
                    Out::Err(EK::Invalid, _) if m.is_none() => None,
                    _ => bad("failure-lost", format!("conversions failed ({:?}) but the caller got: {}", c.rec.casts_failed, out.s())),
                };
            }
            if let (Some(l), Some(w), Out::Num(..)) = (c.limit0, m, out) {
                let den = if conv(*dc) == model::Conv::A365 { 365 } else { 360 };
                let num = (w * den as f64).round() as i64;
                if den > l || num.abs() > l {
                    return bad("failure-lost", format!("the number type holds nothing beyond {l} and {num} and {den} are needed, but the caller got: {}", out.s()));
                }
            }
            match (m, out) {
                (None, Out::Err(EK::Invalid, _)) => None,
                (Some(w), Out::Num(v, _)) if (w - v).abs() <= eps(*prec) * (1.0 + w.abs()) => None,
                _ => bad("answer", format!("the convention gives {m:?}, the caller got: {}", out.s())),
            }
        }
        _ => None,
    }
}

/// per day: may it have been taken for closed / for open, judging by the answers given during the call?
pub fn answers(cal: CalRef, c: &Cx) -> BTreeMap<i64, (bool, bool)> {
    let members: Vec<usize> = match cal {
        CalRef::C(i) | CalRef::Q(i) => vec![i],
        CalRef::Real(_) => vec![calreg::REC_ID],
        CalRef::J2(a, b) => vec![a, b],
        CalRef::J3(a, b, d) => vec![a, b, d],
        CalRef::J4(a, b, d, e) => vec![a, b, d, e],
    };
    let mut per: BTreeMap<i64, Vec<(usize, bool)>> = BTreeMap::new();
    for (id, d, open) in &c.rec.cal {
        per.entry(i64::from(*d)).or_default().push((*id, *open));
    }
    per.into_iter()
        .map(|(d, v)| {
            let open = members.iter().all(|m| v.contains(&(*m, true)));
            let closed = members.iter().any(|m| v.contains(&(*m, false)));
            (d, (closed, open))
        })
        .collect()
}
fn open_static(cal: CalRef, n: i64) -> bool {
    match cal {
        CalRef::C(i) | CalRef::Q(i) => plug::cal_open(i, n),
        CalRef::J2(a, b) => plug::cal_open(a, n) && plug::cal_open(b, n),
        CalRef::J3(a, b, c) => plug::cal_open(a, n) && plug::cal_open(b, n) && plug::cal_open(c, n),
        CalRef::J4(a, b, c, d) => plug::cal_open(a, n) && plug::cal_open(b, n) && plug::cal_open(c, n) && plug::cal_open(d, n),
        // only the plain weekend calendar is used where this matters
        CalRef::Real(_) => model::weekday(n) < 5,
    }
}
/// what the roll must return if the calendar stays as it is, and the number of days passed over
pub fn expected_roll(cal: CalRef, day: i64, per: Per, conv: u8) -> (Option<i64>, u64) {
    let Some(s) = per.model(day) else { return (None, 0) };
    if conv == 0 {
        return (Some(s), 0);
    }
    let find = |dir: i64| -> (Option<i64>, u64) {
        let mut n = 1;
        let mut d = s;
        while !open_static(cal, d) {
            d += dir;
            if !model::in_range(d) || n > 2_000_000 {
                return (None, n);
            }
            n += 1;
        }
        (Some(d), n)
    };
    let dir = if conv <= 2 { 1 } else { -1 };
    let (f, n) = find(dir);
    let Some(h) = f else { return (None, n) };
    if conv == 2 || conv == 4 {
        let (a, b) = (model::civil(h), model::civil(s));
        if (a.0, a.1) != (b.0, b.1) {
            let (g, m) = find(-dir);
            return (g, n + m);
        }
    }
    (Some(h), n)
}
fn c09(op: &Op, c: &Cx, out: &Out) -> V {
    let Op::Roll { cal, day, per, conv } = op else { return None };
    let failed = Failed::of(c);
    if failed.period {
        return if *out == Out::None { None } else { bad("failure-lost", format!("the period could not be applied, the caller got: {}", out.s())) };
    }
    let Some(s) = per.model(*day) else {
        return if *out == Out::None { None } else { bad("answer", format!("the period leads out of range, the caller got: {}", out.s())) };
    };
    let Out::Int(r) = out else {
        return bad("answer", format!("the shifted date is {s} and business days exist, the caller got: {}", out.s()));
    };
    let r = *r;
    if *conv == 0 {
        return if r == s { None } else { bad("answer", format!("the plain shifted date is {s}, the caller got {r}")) };
    }
    let a = answers(*cal, c);
    let closed = |d: i64| a.get(&d).is_some_and(|x| x.0);
    let open = |d: i64| a.get(&d).is_some_and(|x| x.1);
    // candidates for the first hit in a direction
    let hits = |dir: i64| -> Vec<i64> {
        let mut v = vec![];
        let mut d = s;
        loop {
            if open(d) {
                v.push(d);
            }
            if !closed(d) || (d - s).abs() > 50_000 {
                return v;
            }
            d += dir;
        }
    };
    let dir = if *conv <= 2 { 1 } else { -1 };
    let first = hits(dir);
    let ok = if *conv == 1 || *conv == 3 {
        first.contains(&r)
    } else {
        let ms = model::civil(s);
        first.iter().any(|f| {
            let mf = model::civil(*f);
            if (mf.0, mf.1) == (ms.0, ms.1) {
                r == *f
            } else {
                hits(-dir).contains(&r)
            }
        })
    };
    if ok {
        None
    } else {
        let seen: Vec<String> = a.iter().map(|(d, x)| format!("{d}:{}", if x.1 { if x.0 { "both" } else { "open" } } else { "closed" })).collect();
        bad("answer", format!("shifted date {s}, convention {}, the calendar answered [{}] but the caller got {r}", ["", "following", "modified following", "preceding", "modified preceding"][*conv as usize], seen.join(" ")))
    }
}
fn c10(op: &Op, c: &Cx, out: &Out) -> V {
    let Op::Roll { cal, day, per, conv } = op else { return None };
    let (exp, passed) = expected_roll(*cal, *day, *per, *conv);
    let want = exp.map_or(Out::None, Out::Int);
    if *out != want {
        return bad("answer", format!("the roll has to give {}, the caller got: {}", want.s(), out.s()));
    }
    let members = match cal {
        CalRef::J2(..) => 2,
        CalRef::J3(..) => 3,
        CalRef::J4(..) => 4,
        _ => 1,
    };
    let q = c.counts[Seam::Cal as usize];
    if q > members * (4 * passed + 150) {
        return bad("runaway", format!("{q} questions for {passed} days"));
    }
    None
}

fn real_open(i: usize, n: i64) -> bool {
    let d = plug::naive(n).expect("date");
    calreg::reg()[i].cal().is_business_day(d)
}
fn c11(op: &Op, c: &Cx, out: &Out) -> V {
    match op {
        Op::Bdb { cal, a, b, f, l } => {
            let Out::Int(got) = out else { return bad("answer", out.s()) };
            let (sign, x, y) = if a > b { (-1, *b, *a) } else { (1, *a, *b) };
            let from = x + i64::from(!f.unwrap_or(true));
            let to = y - i64::from(!l.unwrap_or(false));
            let (mut lo, mut hi) = (0, 0);
            let ans = if matches!(cal, CalRef::Real(_)) { BTreeMap::new() } else { answers(*cal, c) };
            for d in from..=to {
                let (cl, op) = match cal {
                    CalRef::Real(i) => {
                        let o = real_open(*i, d);
                        (!o, o)
                    }
                    _ => match ans.get(&d) {
                        Some(x) => *x,
                        None => return bad("unasked", format!("day {d} of the interval was never asked about; the caller got {got}")),
                    },
                };
                if op {
                    hi += 1;
                }
                if op && !cl {
                    lo += 1;
                }
                if !op && !cl {
                    return bad("unasked", format!("the members' answers about day {d} decide nothing; the caller got {got}"));
                }
            }
            let g = got * sign;
            if (lo..=hi).contains(&g) {
                None
            } else {
                bad("answer", format!("{lo}..{hi} days of {from}..={to} were reported open, the caller got {got}"))
            }
        }
        Op::CalDay { cal, k, day } => match k {
            CK::Eom => {
                let (y, m, _) = model::civil(*day);
                let last = model::serial(y, m, model::dim(y, m));
                let Out::Int(r) = out else { return bad("answer", out.s()) };
                let ans = answers(*cal, c);
                let st = |d: i64| match cal {
                    CalRef::Real(i) => {
                        let o = real_open(*i, d);
                        (!o, o)
                    }
                    _ => ans.get(&d).copied().unwrap_or((false, false)),
                };
                let ok = *r <= last && st(*r).1 && (*r + 1..=last).all(|d| st(d).0);
                if ok {
                    None
                } else {
                    bad("answer", format!("month end {last}, answers {ans:?}, the caller got {r}"))
                }
            }
            CK::Biz | CK::BizQ | CK::Hol | CK::HolQ => {
                let Out::Bool(r) = out else { return bad("answer", out.s()) };
                let open = if matches!(k, CK::Hol | CK::HolQ) { !*r } else { *r };
                let (cl, op) = match cal {
                    CalRef::Real(i) => {
                        let e = &calreg::reg()[*i];
                        let o = if e.members.is_empty() { real_open(*i, *day) } else { e.members.iter().all(|m| real_open(*m, *day)) };
                        (!o, o)
                    }
                    _ => answers(*cal, c).get(day).copied().unwrap_or((false, false)),
                };
                if open && op || !open && cl {
                    None
                } else {
                    bad("answer", format!("judged {} although the members' own answers were {:?}", if open { "open" } else { "closed" }, c.rec.cal))
                }
            }
            _ => None,
        },
        Op::Roll { .. } => c09(op, c, out),
        _ => None,
    }
}
