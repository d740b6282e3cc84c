//! Built-in calendars behind one interface, and wrappers that record what a calendar answered.
#![allow(static_mut_refs, dead_code)]
use crate::cx;
use crate::plug::{CalC, CalQ};
use crate::rt;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar;
use chrono::{Datelike, NaiveDate};

pub struct Entry {
    pub name: String,
    /// a new one
    pub make: fn() -> Box<dyn Calendar>,
    shared: std::cell::UnsafeCell<Option<Box<dyn Calendar>>>,
    /// members of a joint calendar
    pub members: Vec<usize>,
}
impl Entry {
    /// the one everybody uses, made by the first call that needs it
    pub fn cal(&self) -> &dyn Calendar {
        if unsafe { (*self.shared.get()).is_none() } {
            let c = (self.make)();
            rt::host(|| unsafe {
                if (*self.shared.get()).is_none() {
                    *self.shared.get() = Some(c);
                } else {
                    std::mem::forget(c);
                }
            });
        }
        unsafe { (*self.shared.get()).as_deref().unwrap() }
    }
}
static mut REG: Vec<Entry> = vec![];
pub fn reg() -> &'static Vec<Entry> {
    unsafe { &REG }
}
fn add(name: &str, make: fn() -> Box<dyn Calendar>) {
    unsafe { REG.push(Entry { name: name.into(), make, shared: std::cell::UnsafeCell::new(None), members: vec![] }) };
}
fn joint(name: &str, make: fn() -> Box<dyn Calendar>, members: &[&str]) {
    let m = members.iter().map(|n| reg().iter().position(|e| e.name == *n).expect("member")).collect();
    unsafe { REG.push(Entry { name: name.into(), make, shared: std::cell::UnsafeCell::new(None), members: m }) };
}
macro_rules! plain {
    ($($m:ident $t:ident),* $(,)?) => { $( add(stringify!($t), || Box::new(calendar::$m::$t::default())); )* };
}
macro_rules! market {
    ($m:ident $t:ident $mk:ident: $($v:ident)*) => {
        add(stringify!($t), || Box::new(calendar::$m::$t::default()));
        $( add(concat!(stringify!($t), "::", stringify!($v)), || Box::new(calendar::$m::$t { market: Some(calendar::$m::$mk::$v) })); )*
    };
}
/// Values only; no query is made here.
pub fn init() {
    if !reg().is_empty() {
        return;
    }
    plain!(argentina Argentina, botswana Botswana, chile Chile, china China, czechrepublic CzechRepublic, denmark Denmark, finland Finland,
        hongkong HongKong, hungary Hungary, iceland Iceland, india India, indonesia Indonesia, israel Israel, japan Japan, mexico Mexico,
        newzealand NewZealand, norway Norway, poland Poland, romania Romania, singapore Singapore, slovakia Slovakia, southafrica SouthAfrica,
        southkorea SouthKorea, sweden Sweden, switzerland Switzerland, taiwan Taiwan, target Target, thailand Thailand, turkey Turkey,
        ukraine Ukraine, weekendsonly WeekendsOnly);
    market!(australia Australia AustraliaMarket: Settlement ASX);
    market!(austria Austria AustriaMarket: Settlement Exchange);
    market!(brazil Brazil BrazilMarket: Settlement Exchange);
    market!(canada Canada CanadaMarket: Settlement TSX);
    market!(france France FranceMarket: Settlement Exchange);
    market!(germany Germany GermanyMarket: Settlement FrankfurtStockExchange Xetra Eurex Euwax);
    market!(italy Italy ItalyMarket: Settlement Exchange);
    market!(russia Russia RussiaMarket: Settlement Exchange);
    market!(unitedkingdom UnitedKingdom UnitedKingdomMarket: Settlement Exchange Metals);
    market!(unitedstates UnitedStates UnitedStatesMarket: Settlement Libor NYSE GovernmentBond SOFR NERC FederalReserve);
    use calendar::{germany::Germany, japan::Japan, target::Target, unitedkingdom::UnitedKingdom, unitedstates::UnitedStates, weekendsonly::WeekendsOnly};
    joint("Target+Japan", || Box::new(JointCalendar::new(Target, Japan)), &["Target", "Japan"]);
    joint("Japan+Target", || Box::new(JointCalendar::new(Japan, Target)), &["Japan", "Target"]);
    joint("UnitedStates+UnitedKingdom", || Box::new(JointCalendar::new(UnitedStates::default(), UnitedKingdom::default())), &["UnitedStates", "UnitedKingdom"]);
    joint(
        "WeekendsOnly+(Target+Japan)",
        || Box::new(JointCalendar::new(WeekendsOnly, JointCalendar::new(Target, Japan))),
        &["WeekendsOnly", "Target", "Japan"],
    );
    joint(
        "(UnitedStates+UnitedKingdom)+(Germany+Japan)",
        || Box::new(JointCalendar::new(JointCalendar::new(UnitedStates::default(), UnitedKingdom::default()), JointCalendar::new(Germany::default(), Japan))),
        &["UnitedStates", "UnitedKingdom", "Germany", "Japan"],
    );
    joint("Target+Target", || Box::new(JointCalendar::new(Target, Target)), &["Target", "Target"]);
}
/// A built-in calendar by reference, answering through its own implementation of every method.
pub struct Real(pub usize);
impl std::fmt::Debug for Real {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Real({})", self.0)
    }
}
macro_rules! forward {
    () => {
        fn last_day_of_month(&self, d: NaiveDate) -> NaiveDate {
            self.inner().last_day_of_month(d)
        }
        fn end_of_month(&self, d: NaiveDate) -> NaiveDate {
            self.inner().end_of_month(d)
        }
        fn easter_monday(&self, y: i32) -> u32 {
            self.inner().easter_monday(y)
        }
        fn orthodox_easter_monday(&self, y: i32) -> u32 {
            self.inner().orthodox_easter_monday(y)
        }
        fn is_weekend(&self, d: NaiveDate) -> bool {
            self.inner().is_weekend(d)
        }
        fn is_holiday(&self, d: NaiveDate) -> bool {
            self.inner().is_holiday(d)
        }
        fn business_days_between(&self, a: NaiveDate, b: NaiveDate, f: Option<bool>, l: Option<bool>) -> i64 {
            self.inner().business_days_between(a, b, f, l)
        }
    };
}
impl Real {
    fn inner(&self) -> &dyn Calendar {
        reg()[self.0].cal()
    }
}
impl Calendar for Real {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        self.inner().is_business_day(d)
    }
    forward!();
}
/// Records each day answer of a calendar under the id of its own (used where the calendar itself is composed).
#[derive(Debug)]
pub struct Rec<C: Calendar> {
    pub id: usize,
    pub c: C,
}
pub const REC_ID: usize = 1000;
impl<C: Calendar> Calendar for Rec<C> {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        let r = self.c.is_business_day(d);
        rt::host(|| {
            if let Some(c) = cx::cur() {
                if c.record {
                    c.rec.cal.push((self.id, d.num_days_from_ce(), r));
                }
                c.asked += 1;
                if c.asked > c.cal_budget {
                    std::panic::resume_unwind(Box::new(cx::Runaway));
                }
            }
        });
        r
    }
}
pub type J2 = JointCalendar<CalC, CalC>;
pub type J3 = JointCalendar<CalC, J2>;
pub type J4 = JointCalendar<J2, J2>;
const NJ: usize = 4;
static mut J2S: [Option<&'static J2>; 16] = [None; 16];
static mut J3S: [Option<&'static J3>; 64] = [None; 64];
static mut J4S: [Option<&'static J4>; 256] = [None; 256];
/// Joint calendars over user calendars, shared by everybody, each made by the first call that needs it.
fn shared<T>(slot: *mut Option<&'static T>, make: impl FnOnce() -> T) -> &'static T {
    if unsafe { (*slot).is_none() } {
        let c = make();
        rt::host(|| unsafe {
            if (*slot).is_none() {
                *slot = Some(Box::leak(Box::new(c)));
            } else {
                std::mem::forget(c);
            }
        });
    }
    unsafe { (*slot).unwrap() }
}
pub fn make2(a: usize, b: usize) -> J2 {
    JointCalendar::new(CalC(a), CalC(b))
}
pub fn make3(a: usize, b: usize, c: usize) -> J3 {
    JointCalendar::new(CalC(a), make2(b, c))
}
pub fn make4(a: usize, b: usize, c: usize, d: usize) -> J4 {
    JointCalendar::new(make2(a, b), make2(c, d))
}
pub fn j2(a: usize, b: usize) -> &'static J2 {
    shared(unsafe { &raw mut J2S[a + NJ * b] }, || make2(a, b))
}
pub fn j3(a: usize, b: usize, c: usize) -> &'static J3 {
    shared(unsafe { &raw mut J3S[a + NJ * (b + NJ * c)] }, || make3(a, b, c))
}
pub fn j4(a: usize, b: usize, c: usize, d: usize) -> &'static J4 {
    shared(unsafe { &raw mut J4S[a + NJ * (b + NJ * (c + NJ * d))] }, || make4(a, b, c, d))
}
pub fn q(a: usize) -> CalQ {
    CalQ(a)
}
