//! Universes: objects and operations on them, generated from a seed with deliberately colliding arguments.
#![allow(dead_code)]
use crate::calreg;
use crate::model;
use crate::obj::*;
use crate::plug::{CalPattern, Market, Per};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Interp { kind: u8, prec: u8, pre: Option<Vec<(f64, f64)>>, pts: Vec<(f64, f64)>, slopes: Vec<f64> },
    Curve { dc: u8, kind: u8, prec: u8, settle: i64, mats: Vec<i64>, ys: Vec<f64>, market: usize },
    Bond { prec: u8, id: String, issue: i64, first: i64, pen: i64, mat: i64, rate: f64, face: f64 },
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CalRef {
    Real(usize),
    C(usize),
    Q(usize),
    J2(usize, usize),
    J3(usize, usize, usize),
    J4(usize, usize, usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CK {
    Biz,
    Hol,
    Eom,
    Weekend,
    Last,
    BizQ,
    HolQ,
    Dkmy,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DK {
    AddYears,
    AddMonths,
    SubMonths,
    AddDays,
    SubDays,
    Succ,
    Pred,
    Roll,
    Ymd,
    Sub,
    /// year, month, day, serial number, leap year
    Parts,
    /// order, equality and hash against another date
    Cmp,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Val { s: usize, t: f64 },
    ValBurst { s: usize, t: f64, dt: f64, n: i64 },
    Df { s: usize, a: i64, b: i64 },
    DfBurst { s: usize, a: i64, b: i64, n: i64 },
    Pv { b: usize, c: usize, settle: i64 },
    PvBurst { b: usize, c: usize, settle: i64, step: i64, n: i64 },
    BondId { b: usize },
    Build { s: usize, c: usize, at: Vec<f64> },
    Refit { kind: u8, prec: u8, first: Vec<(f64, f64)>, then: Vec<(f64, f64)>, ts: Vec<f64> },
    Dcf { dc: u8, prec: u8, a: i64, b: i64 },
    Date { k: DK, day: i64, n: i64 },
    Roll { cal: CalRef, day: i64, per: Per, conv: u8 },
    CalDay { cal: CalRef, k: CK, day: i64 },
    CalYear { cal: CalRef, orthodox: bool, year: i32 },
    CalBurst { cal: CalRef, k: CK, day: i64, step: i64, n: i64 },
    Bdb { cal: CalRef, a: i64, b: i64, f: Option<bool>, l: Option<bool> },
    /// a calendar of its own, asked about some days
    NewCal { cal: CalRef, day: i64, n: i64 },
    /// the same call again and again: what a small counter can take before it wraps
    Repeat { of: usize, n: i64 },
    Market { m: usize, bp: i64 },
    Flip { cal: usize, day: i64 },
    Outage { cal: usize, on: bool },
}
#[derive(Clone, Debug, Default)]
pub struct Uni {
    pub specs: Vec<Spec>,
    pub ops: Vec<Op>,
    pub markets: Vec<Market>,
    pub cals: Vec<CalPattern>,
    /// C18: a call, and the same call on something that many times as large
    pub pairs: Vec<(usize, usize, u64)>,
}
impl Uni {
    /// objects an operation needs to exist already
    pub fn needs(&self, o: usize) -> Vec<usize> {
        let op = match &self.ops[o] {
            Op::Repeat { of, .. } => &self.ops[*of],
            op => op,
        };
        match op {
            Op::Val { s, .. } | Op::ValBurst { s, .. } | Op::Df { s, .. } | Op::DfBurst { s, .. } => vec![*s],
            Op::Pv { b, c, .. } | Op::PvBurst { b, c, .. } => vec![*b, *c],
            Op::BondId { b } => vec![*b],
            Op::Build { c, s, .. } if matches!(self.specs[*s], Spec::Bond { .. }) => vec![*c],
            _ => vec![],
        }
    }
}

// ---- pieces ------------------------------------------------------------------------------------------------
pub fn gen_day(r: &mut Rng) -> i64 {
    let y = match r.below(20) {
        0 => r.range(1902, 1969),
        1 => r.range(2061, 2197),
        2 => 2000,
        _ => r.range(1990, 2060),
    };
    let m = *r.pick(&[1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12]);
    let d = match r.below(5) {
        0 => model::dim(y, m),
        1 => 1,
        2 => r.range(27, 31).min(model::dim(y, m)),
        _ => r.range(1, model::dim(y, m)),
    };
    model::serial(y, m, d)
}
/// dates related to `base` in the ways caches get wrong
pub fn kin(r: &mut Rng, base: i64) -> i64 {
    let (y, m, d) = model::civil(base);
    let clampy = |y: i64| y.clamp(1902, 2198);
    match r.below(12) {
        0 => base,
        1 => base + r.range(-3, 3),
        2 => {
            let y2 = clampy(y + *r.pick(&[-1, 1, 4, -4, 19]));
            model::serial(y2, m, d.min(model::dim(y2, m)))
        }
        3 => {
            let y2 = clampy(y + *r.pick(&[-100, 100, 28, -28, 64, 128, 19, 11]));
            model::serial(y2, m, d.min(model::dim(y2, m)))
        }
        4 => model::serial(y, m, model::dim(y, m)),
        5 => model::serial(y, m, 1),
        6 => base + r.range(-40, 40),
        7 => base + 7 * r.range(-60, 60),
        8 => base + *r.pick(&[64, 128, 256, 365, 366, 512, 1024, -64, -128, -256, -512]),
        9 => model::serial(y, 12, r.range(20, 31)),
        10 => model::serial(y, m.clamp(3, 5), r.range(1, 30)),
        _ => base + r.range(-800, 800),
    }
}
pub fn gen_pts(r: &mut Rng, n: usize, like: Option<&[(f64, f64)]>) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = vec![];
    match like {
        Some(l) if r.chance(3, 4) => {
            // same abscissae (or nearly), other ordinates
            for p in l {
                v.push((p.0, if r.chance(1, 3) { p.1 } else { (r.range(-2000, 2000) as f64) / 512.0 }));
            }
            match r.below(6) {
                0 => {
                    v.pop();
                }
                1 => {
                    let x = v.last().map_or(0.0, |p| p.0);
                    v.push((x + 0.5, 1.5));
                }
                2 if v.len() > 2 => {
                    let i = r.idx(v.len() - 2) + 1;
                    v[i].0 = (v[i].0 + v[i + 1].0) / 2.0;
                }
                _ => {}
            }
        }
        _ => {
            let mut x = *r.pick(&[0.0, 0.0, -1.0, 1.0, 0.25, 10.0]);
            for _ in 0..n {
                v.push((x, (r.range(-2000, 2000) as f64) / 512.0));
                x += *r.pick(&[1.0, 1.0, 0.5, 0.25, 2.0, 0.1, 0.001]);
            }
        }
    }
    v
}
/// data an interpolator was fitted to before `pts`
pub fn gen_pre(r: &mut Rng, pts: &[(f64, f64)]) -> Vec<(f64, f64)> {
    let n = pts.len();
    let mut v = match r.below(8) {
        0..=2 => gen_pts(r, n, Some(pts)),
        3 => gen_pts(r, n, None),
        4 => {
            let k = n + r.range(1, 12) as usize;
            gen_pts(r, k, None)
        }
        5 => {
            let k = r.range(2, n.max(3) as i64) as usize;
            gen_pts(r, k, None)
        }
        6 => {
            // the same points and more behind them
            let mut v = pts.to_vec();
            for _ in 0..r.range(1, 5) {
                let x = v.last().map_or(0.0, |p| p.0);
                v.push((x + *r.pick(&[0.25, 0.5, 1.0]), (r.range(-2000, 2000) as f64) / 512.0));
            }
            v
        }
        _ => {
            // entirely before or behind
            let by = *r.pick(&[-100.0, 100.0, 50.0]);
            let mut v = gen_pts(r, n, None);
            for p in &mut v {
                p.0 += by;
            }
            v
        }
    };
    if r.chance(1, 10) && v.len() > 1 {
        v.swap(0, 1);
    }
    v
}
pub fn gen_t(r: &mut Rng, pts: &[(f64, f64)]) -> f64 {
    if pts.is_empty() {
        return 0.5;
    }
    let i = r.idx(pts.len());
    let x = pts[i].0;
    let nx = pts.get(i + 1).map_or(x + 1.0, |p| p.0);
    match r.below(12) {
        0..=2 => x,
        3 => x + 1e-9,
        4 => x - 1e-9,
        5 => pts[0].0,
        6 => pts[pts.len() - 1].0,
        7 => *r.pick(&[pts[0].0 - 1.0, pts[pts.len() - 1].0 + 1.0, f64::NAN, -0.0]),
        8 => (x + nx) / 2.0,
        _ => x + (nx - x) * (r.range(1, 15) as f64) / 16.0,
    }
}
pub fn gen_interp(r: &mut Rng, like: Option<&Spec>, allow_sim: bool) -> Spec {
    if let Some(Spec::Interp { kind, prec, pts, .. }) = like {
        let kind2 = if r.chance(3, 4) { *kind } else { *r.pick(&[LIN, NAT, CAT, HER]) };
        let p = gen_pts(r, pts.len(), Some(pts));
        let pre = if r.chance(1, 6) && kind2 != HER { Some(gen_pre(r, &p)) } else { None };
        let slopes = p.iter().map(|_| (r.range(-100, 100) as f64) / 16.0).collect();
        return Spec::Interp { kind: kind2, prec: if r.chance(4, 5) { *prec } else { 1 }, pre, pts: p, slopes };
    }
    let n = match r.below(12) {
        0 => 3,
        1 => 2,
        2 => r.range(12, 40) as usize,
        _ => r.range(4, 10) as usize,
    };
    let kinds: &[u8] = if allow_sim { &[LIN, LIN, NAT, NAT, CAT, HER, SIM] } else { &[LIN, LIN, NAT, NAT, CAT, HER] };
    let kind = *r.pick(kinds);
    let mut pts = gen_pts(r, n, None);
    if r.chance(1, 12) && pts.len() > 2 {
        pts.swap(0, 1);
    }
    let pre = if r.chance(1, 5) && kind != HER {
        Some(gen_pre(r, &pts))
    } else {
        None
    };
    let slopes = pts.iter().map(|_| (r.range(-100, 100) as f64) / 16.0).collect();
    Spec::Interp { kind, prec: *r.pick(&[0, 0, 0, 1, 2]), pre, pts, slopes }
}
pub fn gen_curve(r: &mut Rng, settle: i64, like: Option<&Spec>, kinds: &[u8], precs: &[u8], nmarkets: usize) -> Spec {
    let mut prec = *r.pick(precs);
    let mut kind = *r.pick(kinds);
    let mut dc = *r.pick(&[A360, A365, A365, T360, DSIM]);
    let mut set = settle;
    let mut mats: Vec<i64> = vec![];
    if let Some(Spec::Curve { dc: d, kind: k, prec: p, settle: s, mats: m, .. }) = like {
        if r.chance(3, 4) {
            kind = *k;
        }
        if r.chance(3, 4) {
            dc = *d;
        }
        if r.chance(4, 5) {
            prec = *p;
        }
        set = *s;
        mats.clone_from(m);
        match r.below(5) {
            0 => set += r.range(-3, 3),
            1 => {
                let sh = r.range(1, 5);
                for m in &mut mats {
                    *m += sh;
                }
            }
            _ => {}
        }
    } else {
        let many = r.chance(1, 12);
        let n = if many { *r.pick(&[17, 24, 33, 40, 65, 70, 100, 130, 260]) + r.range(0, 7) } else { r.range(3, 9) };
        let mut d = set + if r.chance(2, 3) { 0 } else { r.range(1, 90) };
        for _ in 0..n {
            mats.push(d);
            d += if many { *r.pick(&[7, 30, 91]) } else { *r.pick(&[30, 91, 182, 365, 365, 730, 1826, 3652]) };
        }
        // reach far enough for bonds
        if r.chance(3, 4) {
            mats.push(d + 14_610);
        }
    }
    let mut ys: Vec<f64> = mats.iter().map(|_| (r.range(-50, 600) as f64) / 8192.0).collect();
    if let Some(Spec::Curve { ys: y, .. }) = like {
        // the same yields, two of them exchanged, or two of them moved by opposite amounts
        let (i, j) = (r.idx(y.len()), r.idx(y.len()));
        match r.below(6) {
            0 => ys.clone_from(y),
            1 => {
                ys.clone_from(y);
                ys.swap(i, j);
            }
            2 if i != j => {
                ys.clone_from(y);
                ys[i] += 0.015_625;
                ys[j] -= 0.015_625;
            }
            _ => {}
        }
    }
    Spec::Curve { dc, kind, prec, settle: set, mats, ys, market: if nmarkets == 0 { 0 } else { r.idx(nmarkets) } }
}
/// a schedule that can be laid out: issue <= first <= penultimate <= maturity
pub fn gen_bond(r: &mut Rng, near: i64, like: Option<&Spec>, prec: u8, long: bool) -> Spec {
    if let Some(Spec::Bond { id, issue, first, pen, mat, rate, face, prec: p }) = like {
        let (mut issue, mut first, mut pen, mut mat, mut rate, mut face) = (*issue, *first, *pen, *mat, *rate, *face);
        match r.below(6) {
            0 => rate = (r.range(0, 64) as f64) / 512.0,
            1 => face += 100.0,
            2 => mat += 30,
            3 => issue -= 40,
            4 => {
                first = model::add_months(first, 6).unwrap();
                pen = model::add_months(pen, 6).unwrap();
                mat = model::add_months(mat, 6).unwrap().max(pen);
            }
            _ => {}
        }
        return Spec::Bond { id: id.clone(), issue, first, pen, mat, rate, face, prec: *p };
    }
    let first = near + r.range(-900, 400);
    let n = if long && r.chance(1, 6) { r.range(120, 290) } else if long { r.range(30, 90) } else { *r.pick(&[0, 1, 2, 3, 5, 8, 12, 20]) };
    let mut pen = first;
    for _ in 0..n {
        pen = model::add_months(pen, 6).unwrap();
    }
    if r.chance(1, 10) {
        pen += r.range(1, 60);
    }
    let reg = model::add_months(pen, 6).unwrap();
    let mat = match r.below(4) {
        0 => pen + r.range(1, reg - pen),
        1 => reg + r.range(1, 180),
        // accepted by the library: the final flow falls due among the regular ones
        2 if r.chance(1, 4) => pen - r.range(0, 400).min(pen - first + 100),
        _ => reg,
    };
    let prior = model::add_months(first, -6).unwrap();
    let issue = match r.below(4) {
        0 => first - r.range(1, first - prior),
        1 => prior - r.range(1, 180),
        2 => prior - r.range(184, 1500),
        _ => prior,
    };
    let mat = mat.max(issue);
    let rate = *r.pick(&[0.05, 0.03125, 0.0, 0.01, 0.125, -0.01]);
    let face = *r.pick(&[100.0, 1.0, 1_000_000.0, 100.0, 0.0]);
    Spec::Bond { prec, id: (*r.pick(&["A", "A", "B", "XS0000000001", ""])).to_string(), issue, first, pen, mat, rate, face }
}
pub fn gen_pattern(r: &mut Rng, base: i64) -> CalPattern {
    let mut p = CalPattern { seed: r.next(), closed_pm: *r.pick(&[0, 30, 100, 300, 700, 900]), weekends: r.chance(1, 2), closed: vec![], open: vec![] };
    for _ in 0..r.below(3) {
        let s = base + r.range(-60, 60);
        let len = match r.below(5) {
            0 => r.range(300, 900),
            1 => r.range(20, 70),
            _ => r.range(1, 12),
        };
        p.closed.push((s, s + len));
        if r.chance(1, 3) {
            p.open.push(s + r.range(0, len));
        }
    }
    p
}
pub fn gen_per(r: &mut Rng) -> Per {
    match r.below(6) {
        0 => Per::D(0),
        1 | 2 => Per::D(*r.pick(&[1, 2, 30, 31, 90, 365, 3])),
        3 => Per::Y(*r.pick(&[0, 1, -1, 5, 10, -10, 4])),
        _ => Per::M(*r.pick(&[0, 1, 1, 3, 6, 12, 11, 13, 18])),
    }
}
fn real_cal(r: &mut Rng) -> usize {
    r.idx(calreg::reg().len())
}

/// a calendar registered next to this one: mostly another market of the same country
fn neighbour(r: &mut Rng, i: usize) -> usize {
    (i as i64 + *r.pick(&[-2, -1, 1, 2])).clamp(0, calreg::reg().len() as i64 - 1) as usize
}
/// a day on which calendars tend to disagree
pub fn feast(r: &mut Rng, base: i64) -> i64 {
    let y = (model::civil(base).0 + *r.pick(&[0, 0, 0, 0, 0, 0, 1, -1, 4, 28, 19, 11])).clamp(1902, 2198);
    if r.chance(1, 3) {
        // Gregorian Easter Sunday
        let (a, b, c) = (y % 19, y / 100, y % 100);
        let (d, e, f) = (b / 4, b % 4, (b + 8) / 25);
        let g = (b - f + 1) / 3;
        let h = (19 * a + b - d - g + 15) % 30;
        let (i, k) = (c / 4, c % 4);
        let l = (32 + 2 * e + 2 * i - h - k) % 7;
        let m = (a + 11 * h + 22 * l) / 451;
        let x = h + l - 7 * m + 114;
        return model::serial(y, x / 31, x % 31 + 1) + *r.pick(&[-2, -2, 1, 1, -3, -48, 39, 50, 60]);
    }
    let (m, d) = *r.pick(&[
        (1, 1), (1, 2), (1, 6), (1, 26), (2, 11), (2, 22), (3, 19), (3, 21), (4, 25), (5, 1), (5, 3), (5, 5), (5, 8), (5, 25), (5, 31), (6, 6), (6, 19), (7, 1), (7, 4), (7, 14), (7, 21),
        (8, 11), (8, 15), (9, 3), (9, 23), (10, 3), (10, 9), (10, 12), (11, 1), (11, 3), (11, 11), (11, 23), (11, 25), (12, 8), (12, 24), (12, 25), (12, 26), (12, 31),
    ]);
    model::serial(y, m, d) + *r.pick(&[0, 0, 0, 0, 1, 2, -1])
}
/// the markets of one country (or two countries), asked about the same few feast days
fn family(r: &mut Rng, u: &mut Uni, base: i64) {
    let reg = calreg::reg();
    let key = |i: usize| reg[i].name.split("::").next().unwrap_or("").to_string();
    let mut i = real_cal(r);
    for _ in 0..3 {
        // countries with several markets are of most interest
        if !reg[i].name.contains("::") {
            i = real_cal(r);
        }
    }
    let mut f: Vec<usize> = (0..reg.len()).filter(|&j| key(j) == key(i)).collect();
    if f.len() < 2 || r.chance(1, 8) {
        f.push(real_cal(r));
    }
    while f.len() > 5 {
        f.remove(r.idx(f.len()));
    }
    let days: Vec<i64> = (0..r.range(3, 9)).map(|_| feast(r, base)).collect();
    for &d in &days {
        let k = if r.chance(2, 3) { CK::Biz } else { *r.pick(&[CK::Hol, CK::Eom, CK::BizQ, CK::HolQ]) };
        for &c in &f {
            u.ops.push(Op::CalDay { cal: CalRef::Real(c), k, day: d });
        }
    }
    for _ in 0..r.range(0, 12) {
        let (d, c) = (*r.pick(&days), CalRef::Real(*r.pick(&f)));
        u.ops.push(match r.below(5) {
            0 => Op::Bdb { cal: c, a: d - r.range(0, 9), b: d + r.range(0, 9), f: *r.pick(&[None, Some(false)]), l: *r.pick(&[None, Some(true)]) },
            1 => Op::CalBurst { cal: c, k: CK::Biz, day: d - 10, step: 1, n: r.range(20, 60) },
            3 if r.chance(1, 2) => Op::NewCal { cal: c, day: d - 2, n: 5 },
            2 => Op::CalYear { cal: c, orthodox: r.chance(1, 2), year: model::civil(d).0 as i32 },
            _ => Op::Roll { cal: c, day: d, per: gen_per(r), conv: r.below(5) as u8 },
        });
    }
}
/// Universe of C18: that of C16, and calls in two sizes.
pub fn make_w(seed: u64) -> Uni {
    let mut u = make_m(seed);
    let mut r = Rng::new(seed ^ 0x5eed);
    u.markets[0].horizon = f64::INFINITY;
    for _ in 0..2 {
        let (n, ratio) = (r.range(60, 400), *r.pick(&[4i64, 8]));
        let prec = *r.pick(&[0u8, 0, 1]);
        let mut two: Vec<Vec<Op>> = vec![];
        let base = gen_day(&mut r).clamp(model::serial(1950, 1, 1), model::serial(2060, 1, 1));
        let (what, kind, dc) = (r.below(5), *r.pick(&[LIN, NAT, CAT, HER, SIM]), *r.pick(&[A360, A365, T360]));
        let (cal, f) = (*r.pick(&[CalRef::C(0), CalRef::Q(1), CalRef::J2(0, 1), CalRef::J3(2, 0, 1)]), *r.pick(&[None, Some(true), Some(false)]));
        let lin = *r.pick(&[SIM, SIM, LIN]);
        for n in [n, n * ratio] {
            let s = u.specs.len();
            two.push(match what {
                0 => {
                    let pts: Vec<(f64, f64)> = (0..n).map(|i| (i as f64 * 0.25, ((i * 37 % 101) as f64) / 64.0)).collect();
                    let slopes = pts.iter().map(|p| p.1 / 8.0).collect();
                    let t = (n - 2) as f64 * 0.25 + 0.125;
                    let mut v = vec![Op::Build { s, c: 0, at: vec![] }, Op::Build { s, c: 0, at: vec![t] }, Op::Val { s, t }];
                    if kind != HER {
                        v.push(Op::Refit { kind, prec, first: pts[..10].to_vec(), then: pts.clone(), ts: vec![t] });
                        v.push(Op::Refit { kind, prec, first: pts.clone(), then: pts.clone(), ts: vec![] });
                    }
                    u.specs.push(Spec::Interp { kind, prec, pre: None, pts, slopes });
                    v
                }
                1 => {
                    let kind = if kind == HER { LIN } else { kind };
                    let mats: Vec<i64> = (0..n).map(|i| base + 1 + i * 7).collect();
                    let ys = mats.iter().map(|m| ((m * 37 % 101) as f64) / 2048.0).collect();
                    u.specs.push(Spec::Curve { dc, kind, prec, settle: base, mats, ys, market: 0 });
                    vec![Op::Build { s, c: 0, at: vec![] }, Op::Build { s, c: 0, at: vec![(n * 6) as f64] }, Op::Df { s, a: base, b: base + n * 6 }, Op::Df { s, a: base + n * 3, b: base + n * 6 }]
                }
                2 | 3 => {
                    let first = base + 100;
                    let pen = model::add_months(first, 6 * n).unwrap();
                    let (issue, mat) = (model::add_months(first, -6).unwrap(), model::add_months(pen, 6).unwrap());
                    u.specs.push(Spec::Bond { prec, id: "PAIR".into(), issue, first, pen, mat, rate: 0.03125, face: 100.0 });
                    let mats: Vec<i64> = (0..5).map(|i| base + 1 + i * 800_000).collect();
                    u.specs.push(Spec::Curve { dc: A365, kind: lin, prec, settle: base, mats, ys: vec![0.01; 5], market: 0 });
                    vec![Op::Build { s, c: s + 1, at: vec![] }, Op::Build { s, c: s + 1, at: vec![base as f64] }, Op::Pv { b: s, c: s + 1, settle: base }, Op::BondId { b: s }]
                }
                _ => vec![Op::Bdb { cal, a: base, b: base + n * 7, f, l: None }, Op::Bdb { cal, a: base + n * 7, b: base, f, l: f }],
            });
        }
        for (a, b) in two[0].iter().zip(&two[1]) {
            let o = u.ops.len();
            u.ops.push(a.clone());
            u.ops.push(b.clone());
            u.pairs.push((o, o + 1, ratio as u64));
        }
    }
    extremes(&mut r, &mut u);
    u
}
/// the same call with small and with huge numbers: as much work
fn extremes(r: &mut Rng, u: &mut Uni) {
    let day = gen_day(r).clamp(model::serial(1950, 1, 1), model::serial(2060, 1, 1));
    let far = model::max_day() - 8_000 - r.range(0, 100_000);
    let mut two: Vec<(Op, Op)> = vec![];
    for _ in 0..4 {
        two.push(match r.below(6) {
            0 | 1 => {
                let (k, near, many) = match r.below(5) {
                    0 => (DK::AddDays, r.range(1, 40), *r.pick(&[30_000_000, 90_000_000, 1 << 40, 1_000_000])),
                    1 => (DK::SubDays, r.range(1, 40), *r.pick(&[30_000_000, 90_000_000, 1 << 40, 1_000_000])),
                    2 => (DK::AddMonths, r.range(1, 40), *r.pick(&[3_000_000, 12 * 260_000, 120_000, 1 << 31])),
                    3 => (DK::SubMonths, r.range(1, 40), *r.pick(&[3_000_000, 12 * 260_000, 120_000, 1 << 31])),
                    _ => (DK::AddYears, *r.pick(&[1, -1, 5]), *r.pick(&[250_000, -250_000, 2_000_000_000, 10_000])),
                };
                (Op::Date { k, day, n: near }, Op::Date { k, day, n: many })
            }
            2 | 3 => {
                let (dc, prec) = (*r.pick(&[A360, A365, T360]), r.below(2) as u8);
                let a = if r.chance(1, 2) { day } else { -far };
                (Op::Dcf { dc, prec, a: day, b: day + r.range(1, 400) }, Op::Dcf { dc, prec, a, b: far })
            }
            4 => {
                let (s, n) = (u.specs.len(), r.range(3, 40));
                let (dc, kind, prec) = (*r.pick(&[A360, A365, T360]), *r.pick(&[LIN, SIM, SIM, CAT]), r.below(2) as u8);
                let spec = |gap: i64| {
                    let mats: Vec<i64> = (0..n).map(|i| day + i * gap).collect();
                    let ys = mats.iter().map(|m| ((m * 37 % 101) as f64) / 2048.0).collect();
                    Spec::Curve { dc, kind, prec, settle: day, mats, ys, market: 0 }
                };
                let gap = (far - day) / n;
                u.specs.push(spec(30));
                u.specs.push(spec(gap));
                if r.chance(1, 2) {
                    (Op::Df { s, a: day + 31, b: day + 30 * (n - 1) - 1 }, Op::Df { s: s + 1, a: day + gap + 1, b: day + gap * (n - 1) - 1 })
                } else {
                    (Op::Build { s, c: 0, at: vec![] }, Op::Build { s: s + 1, c: 0, at: vec![] })
                }
            }
            _ => {
                let (s, kind, prec, n) = (u.specs.len(), *r.pick(&[LIN, NAT, CAT, HER, SIM]), r.below(2) as u8, r.range(4, 60));
                let spec = |step: f64| {
                    let pts: Vec<(f64, f64)> = (0..n).map(|i| (i as f64 * step, step * (i * 37 % 101) as f64)).collect();
                    let slopes = pts.iter().map(|p| p.1 / 8.0).collect();
                    Spec::Interp { kind, prec, pre: None, pts, slopes }
                };
                let step = *r.pick(&[1e12, 1e-12, 1e6]);
                u.specs.push(spec(1.0));
                u.specs.push(spec(step));
                let t = (n - 2) as f64 + 0.5;
                (Op::Val { s, t }, Op::Val { s: s + 1, t: t * step })
            }
        });
    }
    for (a, b) in two {
        let o = u.ops.len();
        u.ops.push(a);
        u.ops.push(b);
        u.pairs.push((o, o + 1, 1));
    }
    for _ in 0..2 {
        let per = match r.below(4) {
            0 | 1 => Per::D(*r.pick(&[10_000_000, 80_000_000, 1 << 40])),
            2 => Per::M(*r.pick(&[3_000_000, 1_000_000])),
            _ => Per::Y(*r.pick(&[200_000, -200_000])),
        };
        u.ops.push(Op::Roll { cal: CalRef::Q(r.idx(3)), day, per, conv: r.below(5) as u8 });
    }
}
/// Universe of C16: the usual one, and much bigger objects and longer stretches of days.
pub fn make_m(seed: u64) -> Uni {
    let mut r = Rng::new(seed);
    let mut u = make_h1(&mut r, seed % 3 == 0, false);
    let all = std::mem::take(&mut u.ops);
    for _ in 0..r.range(2, 8) {
        u.ops.push(all[r.idx(all.len())].clone());
    }
    let base = gen_day(&mut r);
    let many = |r: &mut Rng| (1i64 << r.range(4, 11)) + r.range(0, 40);
    for _ in 0..r.range(3, 6) {
        match r.below(5) {
            0 => {
                let (mut n, kind, prec) = (many(&mut r), *r.pick(&[LIN, NAT, CAT, HER, SIM]), *r.pick(&[0u8, 0, 1]));
                if kind != NAT && r.chance(1, 3) {
                    n *= 8;
                }
                let step = *r.pick(&[0.25, 1.0, 0.015625]);
                let pts: Vec<(f64, f64)> = (0..n).map(|i| (i as f64 * step, (r.range(-2000, 2000) as f64) / 512.0)).collect();
                let slopes = pts.iter().map(|_| (r.range(-80, 80) as f64) / 16.0).collect();
                let s = u.specs.len();
                let ts: Vec<f64> = (0..3).map(|_| gen_t(&mut r, &pts)).collect();
                u.ops.push(Op::Build { s, c: 0, at: ts.clone() });
                u.ops.push(Op::Val { s, t: ts[0] });
                if kind != HER {
                    let first = gen_pre(&mut r, &pts);
                    u.ops.push(Op::Refit { kind, prec, first, then: pts.clone(), ts });
                }
                u.specs.push(Spec::Interp { kind, prec, pre: None, pts, slopes });
            }
            1 => {
                let (mut n, kind, prec) = (many(&mut r), *r.pick(&[LIN, NAT, CAT, SIM]), *r.pick(&[0u8, 0, 1]));
                if kind != NAT && r.chance(1, 6) {
                    n *= 4;
                }
                let gap = *r.pick(&[1, 7, 30, 91]);
                let settle = base;
                let mats: Vec<i64> = (0..n).map(|i| settle + 1 + i * gap).collect();
                let ys = mats.iter().map(|_| (r.range(-20, 80) as f64) / 1024.0).collect();
                let s = u.specs.len();
                let (end, dc) = (n * gap, *r.pick(&[A360, A365, T360]));
                u.ops.push(Op::Build { s, c: 0, at: vec![r.range(1, end) as f64] });
                u.ops.push(Op::Df { s, a: settle, b: settle + r.range(1, end) });
                u.ops.push(Op::Df { s, a: settle + r.range(1, end), b: settle + end });
                u.specs.push(Spec::Curve { dc, kind, prec, settle, mats, ys, market: 0 });
            }
            2 => {
                let (n, prec) = (many(&mut r).min(900), *r.pick(&[0u8, 0, 1]));
                let first = base + r.range(-400, 400);
                let pen = model::add_months(first, 6 * n).unwrap();
                let (issue, mat) = (model::add_months(first, -6).unwrap(), model::add_months(pen, 6).unwrap());
                let s = u.specs.len();
                u.specs.push(Spec::Bond { prec, id: "LONG".into(), issue, first, pen, mat, rate: 0.03125, face: 100.0 });
                let c = u.specs.len();
                u.specs.push(Spec::Curve { dc: A365, kind: SIM, prec, settle: base, mats: vec![base + 1, base + 3000], ys: vec![0.01, 0.02], market: 0 });
                u.markets[0].horizon = f64::INFINITY;
                let settle = base + r.range(0, 2000);
                u.ops.push(Op::Pv { b: s, c, settle });
                u.ops.push(Op::BondId { b: s });
                u.ops.push(Op::Build { s, c, at: vec![settle as f64] });
            }
            3 => {
                let i = r.idx(3);
                let len = 1000i64 << r.range(0, 6);
                let back = r.chance(1, 2);
                u.cals[i].closed.push(if back { (base - len, base) } else { (base, base + len) });
                for _ in 0..3 {
                    let cal = *r.pick(&[CalRef::C(i), CalRef::Q(i), CalRef::J2(i, (i + 1) % 3), CalRef::J3((i + 1) % 3, i, i)]);
                    let day = if back { base - r.range(0, 40) } else { base + r.range(0, 40) };
                    u.ops.push(match r.below(4) {
                        0 => Op::CalDay { cal, k: *r.pick(&[CK::Eom, CK::Last]), day },
                        _ => Op::Roll { cal, day, per: gen_per(&mut r), conv: *r.pick(if back { &[3u8, 4, 3, 2] } else { &[1u8, 2, 1, 4] }) },
                    });
                }
            }
            _ => {
                for _ in 0..3 {
                    let cal = match r.below(4) {
                        0 => CalRef::C(r.idx(3)),
                        1 => CalRef::Q(r.idx(3)),
                        2 => CalRef::J2(r.idx(3), r.idx(3)),
                        _ => CalRef::Real(real_cal(&mut r)),
                    };
                    let real = matches!(cal, CalRef::Real(_));
                    let len = 10i64 << r.range(2, if real { 8 } else { 12 });
                    let (a, b) = if r.chance(1, 2) { (base, base + len) } else { (base - len, base) };
                    let (a, b) = if real { (a.max(model::serial(1903, 1, 1)), b.min(model::serial(2197, 1, 1))) } else { (a, b) };
                    u.ops.push(Op::Bdb { cal, a, b, f: *r.pick(&[None, Some(true), Some(false)]), l: *r.pick(&[None, Some(true), Some(false)]) });
                }
            }
        }
    }
    u
}
/// one month, mostly February, of ordinary and leap years, asked about in every way
fn months(r: &mut Rng, u: &mut Uni, cals: &[CalRef]) {
    let m = *r.pick(&[2, 2, 2, 2, 4, 12, 1, 3]);
    let y = r.range(1980, 2070);
    let mut days = vec![];
    for _ in 0..r.range(3, 8) {
        let y = match r.below(6) {
            0 => *r.pick(&[2000, 2100, 1904, 2096, 2104]),
            _ => y + r.range(-5, 5),
        };
        let last = model::dim(y, m);
        days.push(model::serial(y, m, *r.pick(&[last, last, last - 1, 1, 15])));
    }
    for _ in 0..r.range(12, 50) {
        let (d, c) = (*r.pick(&days), *r.pick(cals));
        u.ops.push(match r.below(8) {
            0 => Op::CalDay { cal: c, k: CK::Eom, day: d },
            1 | 2 => Op::CalDay { cal: c, k: CK::Last, day: d },
            3 => Op::Roll { cal: c, day: d, per: *r.pick(&[Per::D(0), Per::D(2), Per::M(1), Per::M(12), Per::Y(1), Per::Y(-1)]), conv: r.below(5) as u8 },
            4 => {
                let prec = r.below(2) as u8;
                Op::Dcf { dc: *r.pick(&[A360, A365, T360]), prec, a: d, b: d + *r.pick(&[1, 30, 365, 366]) }
            }
            5 => Op::Date { k: *r.pick(&[DK::AddMonths, DK::SubMonths]), day: d + r.range(-1, 1), n: *r.pick(&[1, 12, 11, 13, 48]) },
            6 => Op::Date { k: DK::AddYears, day: d, n: *r.pick(&[1, -1, 4, -4]) },
            _ => Op::Date { k: *r.pick(&[DK::Ymd, DK::Parts, DK::Succ, DK::Pred]), day: d, n: 0 },
        });
    }
}
/// The same call with one thing changed: what a cache keyed by too little mixes up.
#[allow(clippy::too_many_arguments)]
fn sibling(r: &mut Rng, u: &Uni, o: &Op, days: &[i64], cals: &[CalRef], c0: usize, b0: usize, plug: bool) -> Option<Op> {
    let cal_of = |r: &mut Rng, c: CalRef| match c {
        CalRef::Real(i) if r.chance(1, 2) => CalRef::Real(neighbour(r, i)),
        _ => *r.pick(cals),
    };
    let flag = |r: &mut Rng| *r.pick(&[None, Some(true), Some(false)]);
    let day = |r: &mut Rng, d: i64| if r.chance(1, 3) { *r.pick(days) } else { kin(r, d) };
    let mut o = o.clone();
    match &mut o {
        Op::Val { s, .. } => {
            if r.chance(1, 4) {
                let t = match &o {
                    Op::Val { t, .. } => *t,
                    _ => 0.0,
                };
                return Some(Op::Build { s: r.idx(c0.max(1)), c: 0, at: vec![t] });
            }
            *s = r.idx(c0.max(1));
        }
        Op::Build { s, at, .. } if *s < c0 => {
            *s = r.idx(c0);
            at.truncate(1);
        }
        Op::Build { s, .. } if *s < b0 => *s = c0 + r.idx(b0 - c0),
        Op::Df { s, a, b } => match r.below(4) {
            0 | 1 => *s = c0 + r.idx((b0 - c0).max(1)),
            2 => *a += *r.pick(&[-1, 1, 7, 365, -365]),
            _ => *b += *r.pick(&[-1, 1, 7, 30, 365]),
        },
        Op::Pv { b, c, settle } => {
            if r.chance(1, 3) {
                *settle += *r.pick(&[-1, 1, 2, 182, -182]);
            } else {
                (*b, *c) = matching(u, r, c0, b0)?;
            }
        }
        Op::Dcf { dc, prec, a, b } => match r.below(4) {
            0 => *dc = *r.pick(if plug { &[A360, A365, T360, DSIM] } else { &[A360, A365, T360] }),
            1 if !plug => *prec = *r.pick(&[0, 1]),
            2 => {
                let k = *r.pick(&[1, 30, 31, 365, 366, -1, 65_536, 1 << 15]);
                *a += k;
                *b += k;
            }
            _ => *b += *r.pick(&[1, 30, 31, 365, 366]),
        },
        Op::Roll { cal, day: d, per, conv } => match r.below(5) {
            0 | 1 => *cal = cal_of(r, *cal),
            2 => *conv = r.below(5) as u8,
            3 => *per = gen_per(r),
            _ => *d = day(r, *d),
        },
        Op::CalDay { cal, k, day: d } => match r.below(5) {
            0..=2 => *cal = cal_of(r, *cal),
            3 => *k = *r.pick(&[CK::Biz, CK::Hol, CK::Eom, CK::Weekend, CK::BizQ, CK::HolQ]),
            _ => *d = day(r, *d),
        },
        Op::Bdb { cal, a, b, f, l } => match r.below(5) {
            0 | 1 => *cal = cal_of(r, *cal),
            2 => *f = flag(r),
            3 => *l = flag(r),
            _ => {
                let k = *r.pick(&[1, -1, 7, 364, 365, 366]);
                if r.chance(1, 2) {
                    *a += k;
                }
                *b += k;
            }
        },
        Op::CalYear { cal, orthodox, year } => match r.below(3) {
            0 => *cal = cal_of(r, *cal),
            1 => *orthodox = !*orthodox,
            _ => *year = (i64::from(*year) + *r.pick(&[1, -1, 10, 16, 19, -19, 28, 11, 32, 64, 100, 128, -64, -100, -128])).clamp(1901, 2199) as i32,
        },
        Op::Date { k, day: d, n } => match r.below(3) {
            0 if !matches!(k, DK::Sub | DK::Ymd | DK::Cmp | DK::Parts) => *k = *r.pick(&[DK::AddMonths, DK::SubMonths, DK::AddDays, DK::SubDays, DK::Succ, DK::Pred, DK::Roll]),
            1 if !matches!(k, DK::Sub | DK::Ymd | DK::AddYears | DK::Cmp | DK::Parts) => *n = (*n - 1).abs(),
            _ => *d = day(r, *d),
        },
        _ => return None,
    }
    // negative counts belong to years only
    if let Op::Date { k: DK::AddMonths | DK::SubMonths | DK::AddDays | DK::SubDays, n, .. } = &mut o {
        *n = n.abs();
    }
    Some(o)
}
/// a cheap call worth repeating a great many times
fn repeat(r: &mut Rng, u: &mut Uni) -> Option<Op> {
    let mut cheap: Vec<Op> = vec![];
    for (s, x) in u.specs.iter().enumerate() {
        match x {
            Spec::Interp { kind: LIN | SIM, prec: 0 | 1, pts, .. } if pts.len() < 6 => {
                cheap.push(Op::Build { s, c: 0, at: vec![] });
                cheap.push(Op::Build { s, c: 0, at: vec![] });
                cheap.push(Op::Val { s, t: gen_t(r, pts) });
            }
            Spec::Interp { prec: 0 | 1, pts, .. } if pts.len() < 5 => cheap.push(Op::Build { s, c: 0, at: vec![] }),
            Spec::Curve { kind: LIN, prec: 0 | 1, mats, settle, .. } if mats.len() < 6 => {
                cheap.push(Op::Build { s, c: 0, at: vec![] });
                cheap.push(Op::Df { s, a: *settle, b: settle + r.range(0, 400) });
            }
            Spec::Bond { .. } => cheap.push(Op::BondId { b: s }),
            _ => {}
        }
    }
    let same: Vec<usize> = (0..u.specs.len()).filter(|&i| matches!(u.specs[i], Spec::Interp { prec: 0 | 1, .. })).collect();
    let short: Vec<usize> = same.iter().copied().filter(|&i| matches!(&u.specs[i], Spec::Interp { kind: LIN | SIM, pts, .. } if pts.len() < 12)).collect();
    if !short.is_empty() && same.len() > 1 && r.chance(1, 2) {
        // numbered objects: a great many of them, all asked at one abscissa
        let first = short[r.idx(short.len())];
        let t = gen_t(r, &pts_of(u, first));
        let of = u.ops.len();
        u.ops.push(Op::Build { s: short[r.idx(short.len())], c: 0, at: vec![t] });
        for s in same {
            u.ops.push(Op::Build { s, c: 0, at: vec![t] });
            u.ops.push(Op::Val { s, t });
        }
        return Some(Op::Repeat { of, n: if r.chance(1, 2) { 65_536 - r.range(-9, 6) } else { 256 + r.range(-6, 9) } });
    }
    if r.chance(1, 6) {
        // the same with calendars, all asked about one day
        let day = { let d = gen_day(r); feast(r, d) };
        let of = u.ops.len();
        let joint: Vec<CalRef> = (0..5).map(|_| CalRef::Real(calreg::reg().len() - 1 - r.idx(6))).collect();
        for cal in joint {
            u.ops.push(Op::NewCal { cal, day, n: 1 });
        }
        return Some(Op::Repeat { of, n: if r.chance(1, 3) { 65_536 - r.range(-9, 6) } else { 256 + r.range(-6, 9) } });
    }
    for o in &u.ops {
        if matches!(o, Op::Dcf { prec: 0 | 1, .. } | Op::CalDay { k: CK::Biz | CK::Hol | CK::BizQ | CK::HolQ, .. } | Op::CalYear { .. } | Op::Date { .. }) {
            cheap.push(o.clone());
        }
    }
    if cheap.is_empty() {
        return None;
    }
    let of = u.ops.len();
    u.ops.push(cheap[r.idx(cheap.len())].clone());
    let n = match r.below(4) {
        0 | 1 => 65_536 - r.range(-9, 6),
        2 => 256 - r.range(-1, 6),
        _ => *r.pick(&[16, 100, 128, 1000, 1024, 4096, 10_000, 32_768]) - r.range(-3, 8),
    };
    Some(Op::Repeat { of, n })
}
/// Universe of the properties that compare every call with the same call made alone.
pub fn make_h(seed: u64, nested: bool, arith: bool) -> Uni {
    make_h2(seed, nested, arith, false)
}
pub fn make_h2(seed: u64, nested: bool, arith: bool, long: bool) -> Uni {
    let mut r = Rng::new(seed);
    let mut u = make_h1(&mut r, nested, arith);
    if long && r.chance(1, 4) {
        // the same question about dates a power of two apart: what a narrow key or counter mixes up
        let cand: Vec<usize> = (0..u.ops.len()).filter(|&o| matches!(u.ops[o], Op::Dcf { .. } | Op::Date { .. })).collect();
        if !cand.is_empty() {
            let of = cand[r.idx(cand.len())];
            for _ in 0..r.range(1, 4) {
                let by = 1i64 << *r.pick(&[8, 10, 12, 14, 15, 16, 16, 16, 17, 18, 20]);
                let mut o = u.ops[of].clone();
                match &mut o {
                    Op::Dcf { b, .. } => *b += by,
                    Op::Date { k: DK::AddDays | DK::SubDays, n, .. } => *n += by,
                    Op::Date { day, .. } => *day += by,
                    _ => {}
                }
                u.ops.push(o);
            }
        }
    }
    if long && r.chance(1, 10) {
        for _ in 0..r.range(1, 3) {
            if let Some(o) = repeat(&mut r, &mut u) {
                u.ops.push(o);
            }
        }
    }
    u
}
fn make_h1(r: &mut Rng, nested: bool, arith: bool) -> Uni {
    let mut u = Uni::default();
    let theme = r.below(9);
    let base = gen_day(r);
    for _ in 0..2 {
        u.markets.push(Market { bp: r.range(-50, 50), version: 0, horizon: if r.chance(1, 5) { (r.range(1, 30)) as f64 } else { f64::INFINITY } });
    }
    for _ in 0..3 {
        u.cals.push(gen_pattern(r, base));
    }
    let plug = nested || arith || r.chance(1, 3);
    let precs: &[u8] = if arith { &[2, 2, 0] } else if plug { &[0, 0, 2, 1] } else { &[0, 0, 0, 1] };
    let kinds: &[u8] = if plug { &[LIN, NAT, CAT, SIM, SIM] } else { &[LIN, LIN, NAT, CAT] };
    let (ni, nc, nb) = match theme {
        0 | 1 => (r.range(2, 6), 0, 0),
        2 => (0, r.range(2, 5), 0),
        3 | 4 => (0, r.range(1, 3), r.range(2, 4)),
        5 | 8 => (0, 0, 0),
        6 => (1, 1, 1),
        _ => (2, 2, 2),
    };
    for i in 0..ni {
        let like = if i > 0 && r.chance(2, 3) { Some(u.specs[r.idx(u.specs.len())].clone()) } else { None };
        let mut s = gen_interp(r, like.as_ref(), plug);
        if arith {
            if let Spec::Interp { prec, .. } = &mut s {
                *prec = 2;
            }
        }
        u.specs.push(s);
    }
    let c0 = u.specs.len();
    for i in 0..nc {
        let like = if i > 0 && r.chance(2, 3) { Some(u.specs[c0 + r.idx(i as usize)].clone()) } else { None };
        let s = gen_curve(r, base, like.as_ref(), kinds, precs, 2);
        u.specs.push(s);
    }
    let b0 = u.specs.len();
    for i in 0..nb {
        let like = if i > 0 && r.chance(2, 3) { Some(u.specs[b0 + r.idx(i as usize)].clone()) } else { None };
        // the same number type as some curve
        let prec = match &u.specs[c0 + r.idx(nc.max(1) as usize)] {
            Spec::Curve { prec, .. } => *prec,
            _ => 0,
        };
        let s = gen_bond(r, base, like.as_ref(), prec, false);
        u.specs.push(s);
    }
    let nops = match r.below(10) {
        0 => r.range(100, 200),
        1..=3 => r.range(30, 60),
        _ => r.range(10, 30),
    };
    let days: Vec<i64> = (0..r.range(3, 10)).map(|_| if r.chance(1, 2) { kin(r, base) } else { feast(r, base) }).collect();
    if theme == 8 {
        family(r, &mut u, base);
        return u;
    }
    let mut last_real = real_cal(r);
    let cals: Vec<CalRef> = (0..r.range(2, 6))
        .map(|_| match r.below(if plug { 10 } else { 7 }) {
            7 => CalRef::C(r.idx(3)),
            8 => CalRef::Q(r.idx(3)),
            9 => match r.below(3) {
                0 => CalRef::J2(r.idx(3), r.idx(3)),
                1 => CalRef::J3(r.idx(3), r.idx(3), r.idx(3)),
                _ => CalRef::J4(r.idx(3), r.idx(3), r.idx(3), r.idx(3)),
            },
            _ => {
                last_real = if r.chance(1, 2) { neighbour(r, last_real) } else { real_cal(r) };
                CalRef::Real(last_real)
            }
        })
        .collect();
    if theme == 5 && r.chance(1, 4) {
        months(r, &mut u, &cals);
        return u;
    }
    for i in 0..nops {
        if i > 0 && r.chance(2, 5) {
            let like = u.ops[r.idx(u.ops.len())].clone();
            if let Some(o) = sibling(r, &u, &like, &days, &cals, c0, b0, plug) {
                u.ops.push(o);
                continue;
            }
        }
        let o = gen_op_h(r, &u, theme, base, &days, &cals, c0, b0, plug, precs);
        u.ops.push(o);
    }
    u
}
fn pts_of(u: &Uni, s: usize) -> Vec<(f64, f64)> {
    match &u.specs[s] {
        Spec::Interp { pts, .. } => pts.clone(),
        _ => vec![],
    }
}
fn matching(u: &Uni, r: &mut Rng, c0: usize, b0: usize) -> Option<(usize, usize)> {
    let mut v = vec![];
    for b in b0..u.specs.len() {
        for c in c0..b0 {
            if let (Spec::Bond { prec: p, .. }, Spec::Curve { prec: q, .. }) = (&u.specs[b], &u.specs[c]) {
                if p == q {
                    v.push((b, c));
                }
            }
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(v[r.idx(v.len())])
    }
}
#[allow(clippy::too_many_arguments)]
fn gen_op_h(r: &mut Rng, u: &Uni, theme: u64, base: i64, days: &[i64], cals: &[CalRef], c0: usize, b0: usize, plug: bool, precs: &[u8]) -> Op {
    let day = |r: &mut Rng| if r.chance(3, 4) { *r.pick(days) } else { kin(r, *days.first().unwrap_or(&base)) };
    let want = match theme {
        0 | 1 => *r.pick(&[0, 0, 0, 0, 1, 2, 2]),
        2 => *r.pick(&[3, 3, 3, 3, 4, 5]),
        3 | 4 => *r.pick(&[6, 6, 6, 7, 8, 3]),
        5 => *r.pick(&[9, 9, 10, 10, 10, 11, 11, 12, 13]),
        _ => r.below(14),
    };
    let di = r.idx(c0.max(1));
    match want {
        0 if c0 > 0 => {
            let p = pts_of(u, di);
            if r.chance(1, 12) {
                let a = p.first().map_or(0.0, |q| q.0);
                let b = p.last().map_or(1.0, |q| q.0);
                let n = r.range(20, 600);
                Op::ValBurst { s: di, t: a, dt: (b - a) / n as f64, n }
            } else {
                Op::Val { s: di, t: gen_t(r, &p) }
            }
        }
        1 if c0 > 0 => {
            let p = pts_of(u, di);
            Op::Build { s: di, c: 0, at: (0..r.range(1, 4)).map(|_| gen_t(r, &p)).collect() }
        }
        2 if c0 > 0 => {
            if let Spec::Interp { kind, prec, pts, .. } = &u.specs[di] {
                let kind = if *kind == HER { LIN } else { *kind };
                let first = gen_pre(r, pts);
                let p2 = if r.chance(2, 3) { pts.clone() } else { gen_pts(r, pts.len(), None) };
                let mut ts: Vec<f64> = (0..3).map(|_| gen_t(r, &p2)).collect();
                ts.push(gen_t(r, &first));
                Op::Refit { kind, prec: *prec, first, then: p2, ts }
            } else {
                Op::Dcf { dc: A365, prec: 0, a: base, b: base + 10 }
            }
        }
        3 if b0 > c0 => {
            let s = c0 + r.idx(b0 - c0);
            let (settle, last) = match &u.specs[s] {
                Spec::Curve { settle, mats, .. } => (*settle, *mats.last().unwrap_or(settle)),
                _ => (base, base),
            };
            let a = if r.chance(1, 3) { settle } else { settle + r.range(-2, 900) };
            let b = match r.below(5) {
                0 => a,
                1 => a - 1,
                2 => last + r.range(-2, 2),
                _ => a + *r.pick(&[1, 30, 91, 182, 365, 730, 1500]),
            };
            if r.chance(1, 12) {
                Op::DfBurst { s, a, b: a, n: r.range(20, 300) }
            } else {
                Op::Df { s, a, b }
            }
        }
        4 if b0 > c0 => {
            let s = c0 + r.idx(b0 - c0);
            Op::Build { s, c: 0, at: (0..r.range(1, 3)).map(|_| r.range(0, 1500) as f64).collect() }
        }
        5 => {
            let a = day(r);
            Op::Dcf { dc: *r.pick(if plug { &[A360, A365, T360, DSIM] } else { &[A360, A365, T360] }), prec: *r.pick(precs), a, b: if r.chance(3, 4) { a + r.range(0, 4000) } else { day(r) } }
        }
        6 | 7 if u.specs.len() > b0 => match matching(u, r, c0, b0) {
            Some((b, c)) => {
                let set = match &u.specs[c] {
                    Spec::Curve { settle, .. } => *settle,
                    _ => base,
                };
                let settle = if let Spec::Bond { first, mat, .. } = &u.specs[b] {
                    match r.below(6) {
                        0 => *first,
                        1 => *mat,
                        2 => *first - 1,
                        _ => set + *r.pick(&[0, 0, 1, 30, 182, 365, 1000]),
                    }
                } else {
                    set
                };
                if want == 7 {
                    Op::Build { s: b, c, at: vec![settle as f64] }
                } else if r.chance(1, 15) {
                    Op::PvBurst { b, c, settle, step: 17, n: r.range(10, 60) }
                } else {
                    Op::Pv { b, c, settle }
                }
            }
            None => Op::BondId { b: b0 },
        },
        8 if u.specs.len() > b0 => Op::BondId { b: b0 + r.idx(u.specs.len() - b0) },
        9 => {
            let k = *r.pick(&[DK::AddYears, DK::AddYears, DK::AddMonths, DK::SubMonths, DK::AddDays, DK::SubDays, DK::Succ, DK::Pred, DK::Roll, DK::Ymd, DK::Ymd, DK::Sub, DK::Parts, DK::Cmp]);
            let n = match k {
                DK::AddYears => *r.pick(&[0, 1, -1, 4, 100, -100, 400, 3]),
                DK::AddMonths | DK::SubMonths => *r.pick(&[0, 1, 2, 6, 12, 13, 24, 1200]),
                DK::Sub | DK::Cmp => day(r),
                _ => *r.pick(&[0, 1, 7, 30, 31, 365, 366, 10_000]),
            };
            Op::Date { k, day: day(r), n }
        }
        10 => {
            let cal = *r.pick(cals);
            if r.chance(1, 15) {
                Op::CalBurst { cal, k: CK::Biz, day: day(r), step: *r.pick(&[1, 1, 7, 30, 365]), n: r.range(30, 120) }
            } else if r.chance(1, 12) {
                Op::NewCal { cal, day: day(r), n: r.range(1, 8) }
            } else if r.chance(1, 10) {
                Op::CalYear { cal, orthodox: r.chance(1, 2), year: if r.chance(1, 20) { 1900 } else { r.range(1901, 2199) as i32 } }
            } else if r.chance(1, 25) {
                // outside the tables: the call itself dies
                Op::CalDay { cal, k: CK::Biz, day: model::serial(1890, 6, 3) }
            } else {
                Op::CalDay { cal, k: *r.pick(&[CK::Biz, CK::Biz, CK::Biz, CK::Hol, CK::Eom, CK::Weekend, CK::Last, CK::BizQ, CK::HolQ, CK::Dkmy]), day: day(r) }
            }
        }
        11 => {
            let (a, l) = (day(r), r.range(-40, 120));
            Op::Bdb { cal: *r.pick(cals), a, b: a + l, f: *r.pick(&[None, Some(true), Some(false)]), l: *r.pick(&[None, Some(true), Some(false)]) }
        }
        12 | 13 => Op::Roll { cal: *r.pick(cals), day: day(r), per: gen_per(r), conv: r.below(5) as u8 },
        _ => {
            // nothing of the wanted kind exists in this universe
            if r.chance(1, 2) {
                Op::Roll { cal: *r.pick(cals), day: day(r), per: gen_per(r), conv: r.below(5) as u8 }
            } else {
                Op::CalDay { cal: *r.pick(cals), k: *r.pick(&[CK::Biz, CK::Hol, CK::Eom]), day: day(r) }
            }
        }
    }
}
