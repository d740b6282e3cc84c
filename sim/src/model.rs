//! Independent reference model: proleptic Gregorian dates as day numbers (1 = 0001-01-01), day counts, bond flows.
#![allow(dead_code)]

pub fn floor_div(a: i64, b: i64) -> i64 {
    a.div_euclid(b)
}
pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn dim(y: i64, m: i64) -> i64 {
    match m {
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// days from common era, 0001-01-01 is 1
pub fn serial(y: i64, m: i64, d: i64) -> i64 {
    let p = y - 1;
    let mut n = 365 * p + floor_div(p, 4) - floor_div(p, 100) + floor_div(p, 400);
    for k in 1..m {
        n += dim(y, k);
    }
    n + d
}
pub fn civil(n: i64) -> (i64, i64, i64) {
    let mut y = floor_div(n * 400, 146_097);
    while serial(y + 1, 1, 1) <= n {
        y += 1;
    }
    while serial(y, 1, 1) > n {
        y -= 1;
    }
    let mut m = 1;
    while m < 12 && serial(y, m + 1, 1) <= n {
        m += 1;
    }
    (y, m, n - serial(y, m, 1) + 1)
}
pub const MIN_Y: i64 = -262_143;
pub const MAX_Y: i64 = 262_142;
pub fn min_day() -> i64 {
    serial(MIN_Y, 1, 1)
}
pub fn max_day() -> i64 {
    serial(MAX_Y, 12, 31)
}
pub fn in_range(n: i64) -> bool {
    n >= min_day() && n <= max_day()
}
pub fn add_months(n: i64, k: i64) -> Option<i64> {
    let (y, m, d) = civil(n);
    let t = y * 12 + (m - 1) + k;
    let (y2, m2) = (floor_div(t, 12), t.rem_euclid(12) + 1);
    if !(MIN_Y..=MAX_Y).contains(&y2) {
        return None;
    }
    Some(serial(y2, m2, d.min(dim(y2, m2))))
}
pub fn add_years(n: i64, k: i64) -> Option<i64> {
    let (y, m, d) = civil(n);
    let y2 = y + k;
    if !(MIN_Y..=MAX_Y).contains(&y2) {
        return None;
    }
    Some(serial(y2, m, d.min(dim(y2, m))))
}
pub fn add_days(n: i64, k: u64) -> Option<i64> {
    let t = i128::from(n) + i128::from(k);
    if t > i128::from(max_day()) {
        None
    } else {
        Some(t as i64)
    }
}
/// 0 = Monday
pub fn weekday(n: i64) -> i64 {
    (n + 6).rem_euclid(7)
}
pub fn weekend_roll(n: i64) -> Option<i64> {
    let w = weekday(n);
    let r = if w > 4 { n + 7 - w } else { n };
    if r > max_day() {
        None
    } else {
        Some(r)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
    A360,
    A365,
    T360,
    /// the simulated plug-in (actual/365)
    Sim,
}
/// None: the convention rejects the pair
pub fn dcf(c: Conv, a: i64, b: i64) -> Option<f64> {
    match c {
        Conv::A360 => Some((b - a) as f64 / 360.0),
        Conv::A365 | Conv::Sim => Some((b - a) as f64 / 365.0),
        Conv::T360 => {
            if a > b {
                return None;
            }
            let (y1, m1, d1) = civil(a);
            let (y2, m2, d2) = civil(b);
            Some((360 * (y2 - y1) + 30 * (m2 - m1) + d2.min(30) - d1.min(30)) as f64 / 360.0)
        }
    }
}
#[derive(Clone, Debug)]
pub struct Flow {
    pub due: i64,
    pub pay: i64,
    pub amount: f64,
}
/// Contractual flows of a semi-annual bond. None: the schedule cannot be laid out.
pub fn flows(issue: i64, first: i64, pen: i64, mat: i64, rate: f64, face: f64) -> Option<Vec<Flow>> {
    let cpn = rate * face / 2.0;
    let mut v = vec![];
    let mut d = first;
    while d <= pen {
        v.push(Flow { due: d, pay: weekend_roll(d)?, amount: cpn });
        d = add_months(d, 6)?;
    }
    if v.is_empty() {
        return None;
    }
    let p1 = add_months(first, -6)?;
    if p1 < issue {
        v[0].amount = cpn * ((first - issue) as f64 / (first - p1) as f64);
    } else if p1 > issue {
        let p2 = add_months(p1, -6)?;
        v[0].amount = cpn + cpn * ((p1 - issue) as f64 / (p1 - p2) as f64);
    }
    let reg = add_months(pen, 6)?;
    let mut last = cpn;
    if mat < reg {
        last = cpn * ((mat - pen) as f64 / (reg - pen) as f64);
    } else if mat > reg {
        let nx = add_months(reg, 6)?;
        last = cpn + cpn * ((mat - reg) as f64 / (nx - reg) as f64);
    }
    v.push(Flow { due: mat, pay: mat, amount: face + last });
    Some(v)
}
/// The whole numbers a number type has to represent while such a bond is constructed.
pub fn needs(issue: i64, first: i64, pen: i64, mat: i64) -> Option<Vec<i64>> {
    let mut v = vec![2];
    let p1 = add_months(first, -6)?;
    if p1 < issue {
        v.extend([first - issue, first - p1]);
    } else if p1 > issue {
        v.extend([p1 - issue, p1 - add_months(p1, -6)?]);
    }
    let reg = add_months(pen, 6)?;
    if mat < reg {
        v.extend([mat - pen, reg - pen]);
    } else if mat > reg {
        v.extend([mat - reg, add_months(reg, 6)? - reg]);
    }
    Some(v)
}
