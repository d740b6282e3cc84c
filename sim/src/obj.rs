//! Type-erased library objects: every combination of interpolator, day count and number type behind one interface.
#![allow(dead_code)]
use crate::plug::{date, Prec, SimDayCount, SimInterp};
use crate::rt;
use crate::simval::SimVal;
use qlab_error::{ComputeError, InterpolationError, QLabError};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::act_360::Act360;
use qlab_time::day_count::act_365::Act365;
use qlab_time::day_count::thirty_360::Thirty360;
use qlab_time::day_count::DayCount;
use qlab_time::frequency::Frequency;
use std::any::Any;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK {
    Cast,
    Invalid,
    Zero,
    Interp,
    /// InterpolationError returned directly by an interpolator
    Direct,
}
/// What a call returned.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Num(f64, String),
    Int(i64),
    Bool(bool),
    Text(String),
    Err(EK, String),
    None,
    Unit,
    Panic(String),
    List(Vec<Out>),
}
impl Out {
    pub fn s(&self) -> String {
        match self {
            Out::Num(v, k) => format!("num {k} ({v})"),
            Out::Int(v) => format!("int {v}"),
            Out::Bool(b) => format!("{b}"),
            Out::Text(t) => t.clone(),
            Out::Err(_, t) => format!("err {t}"),
            Out::None => "none".into(),
            Out::Unit => "ok".into(),
            Out::Panic(t) => format!("panic {t}"),
            Out::List(v) => v.iter().map(Out::s).collect::<Vec<_>>().join("; "),
        }
    }
}
pub const INJECTED: &str = "injected";
pub const RUNAWAY: &str = "runaway";

pub fn qerr(e: &QLabError) -> Out {
    let QLabError::ComputeError(c) = e;
    let k = match c {
        ComputeError::CastNumberError(_) => EK::Cast,
        ComputeError::InvalidInput(_) => EK::Invalid,
        ComputeError::ZeroDivisionError => EK::Zero,
        ComputeError::InterpolationError => EK::Interp,
    };
    Out::Err(k, err_text(e))
}
/// both renderings of an error; they are library code too
pub fn err_text(e: &QLabError) -> String {
    let shown = rt::lib(|| format!("{e}"));
    format!("{e:?} \"{shown}\"")
}
pub fn ierr<V: Prec>(e: &InterpolationError<V>) -> Out {
    let t = match e {
        InterpolationError::PointOrderError => "PointOrderError".to_string(),
        InterpolationError::OutOfLowerBound(v) => format!("OutOfLowerBound({})", v.key()),
        InterpolationError::OutOfUpperBound(v) => format!("OutOfUpperBound({})", v.key()),
        InterpolationError::InsufficientPointsError(n) => format!("InsufficientPoints({n})"),
    };
    Out::Err(EK::Direct, t)
}
fn num<V: Prec>(v: V) -> Out {
    Out::Num(v.f(), v.key())
}

pub trait InterpObj {
    fn value(&self, t: f64) -> Out;
}
struct Shell<I>(I);
impl<V: Prec, I: Interpolator<Value = V>> InterpObj for Shell<I> {
    fn value(&self, t: f64) -> Out {
        let r = self.0.try_value(V::of(t));
        rt::host(|| match r {
            Ok(v) => num(v),
            Err(e) => ierr(&e),
        })
    }
}
struct HShell<V: Prec>(Hermite<V>);
impl<V: Prec> InterpObj for HShell<V> {
    fn value(&self, t: f64) -> Out {
        let r = self.0.try_value(V::of(t));
        rt::host(|| match r {
            Ok(v) => num(v),
            Err(e) => ierr(&e),
        })
    }
}
pub type IBox = Box<dyn InterpObj>;

pub static mut FIT_ONCE: bool = false;
fn fit<V: Prec, I: Interpolator<Value = V> + 'static>(pre: Option<&[(f64, f64)]>, pts: &[(f64, f64)]) -> Result<IBox, Out> {
    let conv = |p: &[(f64, f64)]| -> Vec<(V, V)> { rt::host(|| p.iter().map(|q| (V::of(q.0), V::of(q.1))).collect()) };
    let mut i = I::default();
    // what an interpolator was fitted to before must not matter: alone it is fitted once
    if let (Some(p), false) = (pre, unsafe { FIT_ONCE }) {
        let v = conv(p);
        i = match i.try_fit(&v) {
            Ok(i) => {
                // a query between the two fits
                if let (Some(q), true) = (v.first(), v.len() > 1) {
                    let _ = i.try_value(q.0);
                }
                i
            }
            Err(_) => I::default(),
        };
    }
    let v = conv(pts);
    let i = i.try_fit(&v).map_err(|e| ierr(&e))?;
    Ok(Box::new(Shell(i)))
}
pub const LIN: u8 = 0;
pub const NAT: u8 = 1;
pub const CAT: u8 = 2;
pub const HER: u8 = 3;
pub const SIM: u8 = 4;
fn interp_v<V: Prec>(kind: u8, pre: Option<&[(f64, f64)]>, pts: &[(f64, f64)], slopes: &[f64]) -> Result<IBox, Out> {
    match kind {
        LIN => fit::<V, Linear<V>>(pre, pts),
        NAT => fit::<V, NaturalCubic<V>>(pre, pts),
        CAT => fit::<V, CatmullRom<V>>(pre, pts),
        HER => {
            let v: Vec<(V, V, V)> = rt::host(|| pts.iter().zip(slopes).map(|(q, s)| (V::of(q.0), V::of(q.1), V::of(*s))).collect());
            Ok(Box::new(HShell(Hermite::try_new(&v).map_err(|e| ierr(&e))?)))
        }
        _ => fit::<V, SimInterp<V>>(pre, pts),
    }
}
pub fn interp(kind: u8, prec: u8, pre: Option<&[(f64, f64)]>, pts: &[(f64, f64)], slopes: &[f64]) -> Result<IBox, Out> {
    match prec {
        0 => interp_v::<f64>(kind, pre, pts, slopes),
        1 => interp_v::<f32>(kind, pre, pts, slopes),
        _ => interp_v::<SimVal>(kind, pre, pts, slopes),
    }
}

pub trait BondObj {
    fn any(&self) -> &dyn Any;
    fn id(&self) -> String;
}
struct BShell<V: Prec>(Bond<V>);
impl<V: Prec> BondObj for BShell<V> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn id(&self) -> String {
        self.0.bond_id().to_string()
    }
}
pub type BBox = Box<dyn BondObj>;
#[allow(clippy::too_many_arguments)]
pub fn bond(prec: u8, id: &str, issue: i64, first: i64, pen: i64, mat: i64, rate: f64, face: f64) -> Option<BBox> {
    fn mk<V: Prec>(id: &str, issue: i64, first: i64, pen: i64, mat: i64, rate: f64, face: f64) -> Option<BBox> {
        let (a, b, c, d) = rt::host(|| (date(issue), date(first), date(pen), date(mat)));
        Bond::<V>::new(id, a, b, c, d, Frequency::SA, V::of(rate), V::of(face)).map(|b| Box::new(BShell(b)) as BBox)
    }
    match prec {
        0 => mk::<f64>(id, issue, first, pen, mat, rate, face),
        1 => mk::<f32>(id, issue, first, pen, mat, rate, face),
        _ => mk::<SimVal>(id, issue, first, pen, mat, rate, face),
    }
}

pub trait CurveObj {
    fn df(&self, a: i64, b: i64) -> Out;
    fn pv(&self, b: &dyn BondObj, settle: i64) -> Out;
}
struct CShell<D: DayCount, I: Interpolator>(YieldCurve<D, I>);
impl<V: Prec, D: DayCount + 'static, I: Interpolator<Value = V> + 'static> CurveObj for CShell<D, I> {
    fn df(&self, a: i64, b: i64) -> Out {
        let (a, b) = rt::host(|| (date(a), date(b)));
        let r = self.0.discount_factor(a, b);
        rt::host(|| match r {
            Ok(v) => num(v),
            Err(e) => qerr(&e),
        })
    }
    fn pv(&self, b: &dyn BondObj, settle: i64) -> Out {
        let Some(b) = b.any().downcast_ref::<BShell<V>>() else { return Out::Text("type mismatch".into()) };
        let s = rt::host(|| date(settle));
        let r = b.0.discounted_value(s, &self.0);
        rt::host(|| match r {
            Ok(v) => num(v),
            Err(e) => qerr(&e),
        })
    }
}
pub type CBox = Box<dyn CurveObj>;
pub const A360: u8 = 0;
pub const A365: u8 = 1;
pub const T360: u8 = 2;
pub const DSIM: u8 = 3;
fn curve_t<V: Prec, D: DayCount + 'static, I: Interpolator<Value = V> + 'static>(settle: i64, mats: &[i64], ys: &[f64]) -> Result<CBox, Out> {
    let (s, m, y) = rt::host(|| (date(settle), mats.iter().map(|m| date(*m)).collect::<Vec<Date>>(), ys.iter().map(|y| V::of(*y)).collect::<Vec<V>>()));
    match YieldCurve::<D, I>::new(s, &m, &y) {
        Ok(c) => Ok(Box::new(CShell(c))),
        Err(e) => Err(qerr(&e)),
    }
}
fn curve_d<V: Prec, D: DayCount + 'static>(kind: u8, settle: i64, mats: &[i64], ys: &[f64]) -> Result<CBox, Out> {
    match kind {
        LIN => curve_t::<V, D, Linear<V>>(settle, mats, ys),
        NAT => curve_t::<V, D, NaturalCubic<V>>(settle, mats, ys),
        CAT => curve_t::<V, D, CatmullRom<V>>(settle, mats, ys),
        _ => curve_t::<V, D, SimInterp<V>>(settle, mats, ys),
    }
}
fn curve_v<V: Prec>(dc: u8, kind: u8, settle: i64, mats: &[i64], ys: &[f64]) -> Result<CBox, Out> {
    match dc {
        A360 => curve_d::<V, Act360>(kind, settle, mats, ys),
        A365 => curve_d::<V, Act365>(kind, settle, mats, ys),
        T360 => curve_d::<V, Thirty360>(kind, settle, mats, ys),
        _ => curve_d::<V, SimDayCount>(kind, settle, mats, ys),
    }
}
pub fn curve(dc: u8, kind: u8, prec: u8, settle: i64, mats: &[i64], ys: &[f64]) -> Result<CBox, Out> {
    match prec {
        0 => curve_v::<f64>(dc, kind, settle, mats, ys),
        1 => curve_v::<f32>(dc, kind, settle, mats, ys),
        _ => curve_v::<SimVal>(dc, kind, settle, mats, ys),
    }
}
pub fn dcf(dc: u8, prec: u8, a: i64, b: i64) -> Out {
    fn d<V: Prec, D: DayCount>(a: i64, b: i64) -> Out {
        let (a, b) = rt::host(|| (date(a), date(b)));
        let r = D::calculate_day_count_fraction::<V>(a, b);
        rt::host(|| match r {
            Ok(v) => num(v),
            Err(e) => qerr(&e),
        })
    }
    fn v<V: Prec>(dc: u8, a: i64, b: i64) -> Out {
        match dc {
            A360 => d::<V, Act360>(a, b),
            A365 => d::<V, Act365>(a, b),
            T360 => d::<V, Thirty360>(a, b),
            _ => d::<V, SimDayCount>(a, b),
        }
    }
    match prec {
        0 => v::<f64>(dc, a, b),
        1 => v::<f32>(dc, a, b),
        _ => v::<SimVal>(dc, a, b),
    }
}

// ---- can the objects be shared between threads at all? ---------------------------------------------------------
struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Fallback for Probe<T> {}
struct ProbeSend<T>(std::marker::PhantomData<T>);
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> Fallback for ProbeSend<T> {}
impl<T> Fallback for ProbeSync<T> {}
#[allow(dead_code)]
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
macro_rules! shareable {
    ($v:ident; $($t:ty),* $(,)?) => { $( if !<ProbeSend<$t>>::SEND { $v.push(concat!(stringify!($t), " is not Send")); } if !<ProbeSync<$t>>::SYNC { $v.push(concat!(stringify!($t), " is not Sync")); } )* };
}
pub fn unshareable() -> Vec<&'static str> {
    let mut v = vec![];
    shareable!(v; Linear<f64>, NaturalCubic<f64>, CatmullRom<f64>, Hermite<f64>, Linear<f32>, NaturalCubic<f32>, CatmullRom<f32>, Hermite<f32>,
        YieldCurve<Act365, Linear<f64>>, YieldCurve<Act360, NaturalCubic<f64>>, YieldCurve<Thirty360, CatmullRom<f64>>,
        Bond<f64>, Bond<f32>, Date, qlab_time::period::days::Days, qlab_time::period::months::Months, qlab_time::period::years::Years,
        Act360, Act365, Thirty360, calendar::weekendsonly::WeekendsOnly, calendar::target::Target, calendar::japan::Japan,
        calendar::unitedstates::UnitedStates, calendar::unitedkingdom::UnitedKingdom, calendar::germany::Germany, calendar::brazil::Brazil,
        calendar::jointcalendar::JointCalendar<calendar::target::Target, calendar::japan::Japan>);
    v
}
