#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BOND="crates/qlab-instrument/src/bond.rs"; YC="crates/qlab-termstructure/src/yield_curve.rs"
INT="crates/qlab-math/src/interpolation.rs"; LIN="crates/qlab-math/src/interpolation/linear.rs"
CAT="crates/qlab-math/src/interpolation/spline/catmull_rom.rs"; HER="crates/qlab-math/src/interpolation/spline/hermite.rs"
NAT="crates/qlab-math/src/interpolation/spline/natural_cubic.rs"; TRI="crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs"
DATE="crates/qlab-time/src/date.rs"; QCAL="crates/qlab-time/src/calendar.rs"; PER="crates/qlab-time/src/period.rs"
A360="crates/qlab-time/src/day_count/act_360.rs"; A365="crates/qlab-time/src/day_count/act_365.rs"; T360="crates/qlab-time/src/day_count/thirty_360.rs"
CAL="third-parties/calendar/src/lib.rs"; JOINT="third-parties/calendar/src/jointcalendar.rs"; ERR="crates/qlab-error/src/lib.rs"; VAL="crates/qlab-math/src/value.rs"
ALL=[BOND,YC,INT,LIN,CAT,HER,NAT,TRI,DATE,A360,A365,T360,CAL,JOINT]

p("C01","Concurrent callers each get the answer they would get alone",
 "Fitted interpolators, yield curves, bonds and calendars can be shared between any number of threads that query them, build new ones and do date arithmetic at the same time. Under every interleaving, each call returns exactly (bit for bit, errors and panics included) what the same call returns when it is the only call ever made in a fresh process. No interleaving deadlocks or starves a caller.",
 ["schedules","inputs"],"every interleaving (down to single atomic, lock and branch steps inside the library) of every mix of public calls on shared objects by 2 to 6 threads, including calls made while a thread is ending",
 "All tests are single-threaded and query each object once; none shares an object, so no schedule at all is exercised.",
 ALL,[("queries take &self and keep no mutable state",YC+": discount_factor"),("no statics, caches or interior mutability in any crate",INT+": find_index_at_left_boundary"),("calendars are plain data",CAL)],
 ["return value of every public query, per thread"])
p("C02","Answers do not depend on call history",
 "What a call returns depends only on its arguments and on the data its objects were built from. It never depends on earlier calls (successful, rejected or panicking), on how often or on which thread calls were made, or on which other objects, even equal-looking ones, were built, queried, re-fitted or dropped before. Fitting an already fitted interpolator again replaces the earlier data completely.",
 ["histories","inputs"],"every history of public calls and of object creation, re-fitting, re-use and destruction, up to thousands of calls long, preceding the call observed",
 "Each test makes one or a few calls on fresh objects; none repeats a query after unrelated ones, after failures, or after objects were dropped and rebuilt.",
 ALL,[("fit replaces the point set",LIN+": try_fit"),("no state outlives a call",YC),("no process-wide state in calendars",CAL)],
 ["return value of a call after an arbitrary history, against the same call made first in a fresh process"])
p("C03","A call that dies half way harms no other call",
 "If user code plugged into the library (a number type, interpolator, day count, period or calendar) panics at any point of a call, the panic reaches that caller instead of being turned into an answer. Every other call, concurrent or later, on the same or another thread and on the same or other shared objects, also one that a destructor makes while the panic unwinds, still returns exactly what it returns in a fresh process; nothing stays locked, poisoned or half updated.",
 ["crash_points","schedules","histories"],"every point of a call at which plug-in code runs (each callback and each arithmetic step of a user number type), combined with every schedule and every later history",
 "No test plugs in failing user code or unwinds out of a call, and none looks at an object again after a failure.",
 [BOND,YC,INT,LIN,CAT,NAT,HER,DATE,A360,A365,T360,CAL,JOINT],[("values are built completely before they are stored",YC+": new"),("no state is mutated during queries",BOND+": discounted_value"),("no unwinding is intercepted",DATE+": checked_roll")],
 ["outcome of the interrupted call; results of all other calls"])
p("C04","Answers do not depend on clock, environment or entropy",
 "No result depends on the time of day or on any jump of the clocks, on environment variables, time zone, files, terminals and standard streams, processor count, process or thread identity, hash seeds or memory layout. The same calls give bit-identical results under every such surrounding, including when it changes while a call is running.",
 ["fault_sequences","configurations","inputs"],"every setting of wall and monotonic clock (any epoch, jumps in either direction mid-call), entropy stream, environment, file availability, CPU count and heap pattern around a call",
 "The tests run under one ambient setting: today's clock, this machine's time zone, one environment.",
 ALL,[("dates are plain values; 'today' is never consulted",DATE),("sums run in schedule order, not hash order",BOND+": discounted_value"),("holiday rules depend on the date asked for only",CAL)],
 ["return value of every public call under perturbed surroundings"])
p("C05","Plug-ins may call back into the library",
 "While the library is calling a plug-in (number type, interpolator, day count, period or calendar), that plug-in may itself make any call to the library, on the same or on other objects, to any depth. Both the inner and the outer call return exactly what they return when made alone. Such nesting never deadlocks or panics.",
 ["schedules","histories","inputs"],"every nesting of public calls inside plug-in callbacks, at every callback, on shared or separate objects, including several threads nesting at once",
 "The only plug-in in the tests is a constant interpolator that calls nothing.",
 [BOND,YC,INT,LIN,NAT,CAT,DATE,CAL,JOINT],[("no lock or borrow is held across a plug-in call",YC+": discount_factor"),("each call works on its own locals",DATE+": checked_roll")],
 ["results of outer and inner calls"])
p("C06","A curve reports every plug-in failure and uses only fresh plug-in answers",
 "Building a yield curve hands its interpolator exactly one (year fraction, yield) pair per maturity, in order, and a discount factor between two dates is exp(t1*y1 - t2*y2), or exp(-t2*y2) when the first date is the settlement date, of the yields the interpolator delivered during that very call, even while the data behind the interpolator keeps changing. If the day count, the interpolator or a number conversion of a day count fails at any point, the caller gets that failure as an error and never a number. Dates in the wrong order or before settlement and unequal input lengths are rejected as invalid input.",
 ["fault_sequences","schedules","inputs"],"every position and kind of plug-in failure during construction and query, every moment at which live market data changes, all date pairs around settlement and the three built-in day counts",
 "One test with a constant, never failing interpolator checks one date pair.",
 [YC,A360,A365,T360,ERR,INT],[("? on every day count and interpolation call",YC+": discount_factor"),("conversion of interpolation errors",ERR),("length check before anything else",YC+": new")],
 ["Result of construction and discount_factor; calls received by the plug-ins"])
p("C07","A bond price counts each outstanding flow once, or is an error",
 "A bond price is the sum, over every contractual cash flow due strictly after the settlement date and no other, of its amount times the discount factor from settlement to its payment date, each counted exactly once and using only what the curve's plug-ins delivered during that call. If the discount factor of any outstanding flow cannot be obtained, whichever flow and whatever the reason, the price is an error and never a partial sum; a bond with nothing outstanding is worth zero. Pricing again once the failure is gone gives the full price.",
 ["fault_sequences","schedules","inputs"],"every failing position in the sequence of flows, every kind of failure, every change of market data mid-pricing, all settlement dates from before issue to after maturity, regular and irregular first and last periods",
 "The only pricing test prints one number and asserts nothing; no test makes a flow's discount factor fail.",
 [BOND,YC,"crates/qlab-time/src/frequency.rs",DATE],[("? inside the summation loop",BOND+": discounted_value"),("due date decides, payment date discounts",BOND+": discounted_value"),("cash flow generation",BOND+": new")],
 ["Result of pricing; discounting requests seen by the plug-ins"],
 [("bond_cash_flows","the contractual flows",BOND)])
p("C08","Failing number conversions never yield a bond or year fraction",
 "When the number type cannot represent a constant or day count needed while a bond is constructed or a day-count fraction is computed, at whichever conversion this happens, the caller gets no bond, or a conversion error, and never a panic, an incomplete bond or a wrong value; a coupon schedule that cannot be laid out is refused in the same way. If no conversion fails, the bond carries all its contractual flows and the fraction follows the convention. A failed attempt does not influence a retry.",
 ["fault_sequences","inputs"],"every conversion during construction and day counting failing (one, several, or all beyond a magnitude), all dates, all three day counts, regular and irregular bonds",
 "Tests use f64 only, whose conversions never fail; none of the failure branches is executed.",
 [BOND,A360,A365,T360,VAL,ERR],[("? on conversions",BOND+": new, first_cash_flow, final_cash_flow"),("CastNumberError",A360+", "+A365+", "+T360)],
 ["Option / Result of the constructor and of the day count"])
p("C09","Rolled dates are what the calendar itself allowed during the call",
 "Rolling a date by a period under a convention returns a day that the supplied calendar reported as a business day during that call (the plain shifted date if unadjusted), and it is the nearest one: the calendar reported every day skipped on the way as a holiday. The modified conventions search in the opposite direction exactly when the first hit leaves the month of the shifted date. This holds for every calendar, including one whose answers change while the roll is under way, and a period that cannot be applied makes the roll fail.",
 ["schedules","fault_sequences","inputs"],"every calendar (arbitrary closures across month and year ends, answers changing between any two questions), every date and period, every convention",
 "No test calls the rolling function at all, with any calendar.",
 [DATE,QCAL,PER,"crates/qlab-time/src/date_rolling.rs"],[("step until the calendar says open",DATE+": checked_roll"),("turn back on month change",DATE+": checked_roll")],
 ["Option<Date> of the roll; questions and answers exchanged with the calendar"])
p("C10","Rolling always terminates and never panics",
 "Every roll finishes after asking the calendar a number of questions proportional to the number of days it passes over. When no business day is left before the end of the representable date range, or when the period leads outside that range, however large it is, the roll reports failure; it never hangs, overflows or panics. Once a calendar that had closed everything opens again, the next roll succeeds.",
 ["fault_sequences","histories","inputs"],"every calendar outage (temporary, permanent, arbitrarily long), dates up to both ends of the representable range, periods up to the largest representable",
 "No test rolls a date, uses a closed calendar, or goes near the limits of the date range.",
 [DATE,PER,"crates/qlab-time/src/period/years.rs"],[("succ_opt / pred_opt stop at the range end",DATE+": checked_roll"),("checked period addition",DATE+": checked_add_years, checked_add_months, checked_add_days")],
 ["outcome of the roll and number of calendar questions"])
p("C11","Derived calendar answers agree with the calendar's own day answers",
 "The number of business days between two dates is the number of days of that interval (first day counted unless excluded, last day not counted unless included; negated when the dates are swapped) that the calendar itself reports open during the call; the business month end is the last such day on or before the month's last day; a holiday is exactly a day that is not a business day; and a joint calendar is open exactly when all its members are. This holds for built-in and user calendars, alone or nested in joint calendars, and while their answers change. A member that panics is never mistaken for open or closed.",
 ["schedules","fault_sequences","inputs"],"every calendar, also failing or changing between any two questions, every interval and flag combination, every joint nesting",
 "One test counts one interval whose both ends are Sundays or Saturdays; joint calendars and month ends are untested.",
 [CAL,JOINT,QCAL],[("day by day walk",CAL+": business_days_between, end_of_month"),("conjunction",JOINT),("delegation",QCAL)],
 ["returned counts, dates and booleans; questions and answers exchanged with member calendars"])

p("C12","Calls give back everything they took",
 "Whatever memory and plug-in objects (interpolators) a call takes, it gives back exactly once: when it ends, or when the object it returned is dropped. That also holds when the call fails at any point or a plug-in panics half way through it. No sequence of calls, however long, whether they succeed, fail or die, whether they ask the same thing or ever different things, on objects that are kept or dropped and rebuilt, makes the process hold more and more.",
 ["fault_sequences","histories","crash_points"],"every failure and panic position in every call, repeated without end, with and without dropping and rebuilding the objects",
 "The tests make each call once, never fail half way, and look at results only.",
 [YC,BOND,INT,LIN,CAT,HER,NAT,TRI,DATE,CAL,JOINT,ERR],[("values own their data and are dropped on every path",YC+": new"),("errors own their text",ERR),("nothing is registered anywhere",BOND+": new")],
 ["blocks and bytes of heap and number of interpolators alive after each round of calls"])
p("C13","Calls ask their plug-ins a bounded number of questions",
 "Whatever the plug-ins answer, even if they fail for good or never give the same answer twice, every call ends after a number of plug-in calls proportional to the size of what it was given: a discount factor needs a fixed number of yields and day counts, however many pillars the curve has; a curve is fitted a fixed number of times, with a fixed number of day counts per pillar; a price needs a fixed number of yields and day counts per cash flow; calendar calls ask a fixed number of questions per member calendar and day they go over. No call polls or retries a plug-in until the answer suits it.",
 ["fault_sequences","schedules","inputs"],"every point from which a plug-in fails for good or changes its data at every question, every curve and bond size, every calendar interval and joint calendar, data also changing from other threads",
 "No test counts plug-in calls, has a plug-in fail for good, or uses data that change.",
 [YC,BOND,INT,DATE,CAL,JOINT,QCAL,A360,A365,T360],[("one interpolation per date",YC+": discount_factor"),("one pass over the flows",BOND+": discounted_value"),("one question per day",CAL+": business_days_between")],
 ["number of plug-in calls of each kind made during a call"])

p("C14","A stalled plug-in holds up only the call it belongs to",
 "A plug-in (number type, interpolator, day count, period or calendar) may take arbitrarily long to answer, at any point of a call. However many such calls are stalled, and for however long, every call on other threads runs to its end and returns what it returns alone, even if it uses the same curve, bond, interpolator or calendar objects or the same kind of call. Once the plug-in answers, the stalled call ends, too, with the answer it gives alone. No call ever waits for another.",
 ["schedules","fault_sequences","inputs"],"every point of a call at which plug-in code runs stalling without end, one or several at a time, on any thread, combined with every schedule and every mix of other calls on shared or separate objects",
 "No test has two calls under way at the same time, and no plug-in in the tests takes any time.",
 [YC,BOND,INT,LIN,NAT,CAT,DATE,CAL,JOINT,A360,A365,T360],[("no lock is held across a plug-in call",YC+": discount_factor, new"),("no shared state to wait for",BOND+": discounted_value"),("calendars are asked without any lock",CAL+", "+JOINT)],
 ["completion and results of all other calls while plug-ins are stalled"])
p("C15","Calls consult their plug-ins only about their own arguments",
 "A call asks its plug-ins only what its own arguments give rise to, even while plug-ins fail or change their answers. Building a curve asks for day counts from settlement to its maturities and for no yields; a discount factor asks for yields at its own two dates only (none at settlement); a price asks only about the settlement date and the payment dates of flows still outstanding; counting business days asks only about days of the interval, a month end only about that month and closed days before it, a roll only about days up to the first open day in the directions of its convention, starting at its date shifted by the period. Data outside that, failing or missing, never matters.",
 ["fault_sequences","schedules","inputs"],"every call with every plug-in, every plug-in failure and change of data during the call, all dates, bonds, intervals, conventions and joint calendars",
 "The tests' only plug-in is a constant interpolator that does not look at what it is asked; no test uses a plug-in whose data cover only what is needed.",
 [YC,BOND,DATE,CAL,JOINT,QCAL],[("flows already due are skipped before discounting",BOND+": discounted_value"),("settlement needs no yield",YC+": discount_factor"),("search stops at the first open day",DATE+": checked_roll")],
 ["arguments of every plug-in call, at the time it is made"])

p("C16","Calls make do with memory in proportion to their input",
 "A call completes, with the same result as ever, when heap and stack are limited. Counted while it runs, the heap it takes beyond what was in use when it began never exceeds 16 KiB, plus 512 bytes per point, pillar and cash flow of the data it is given and of the curve, interpolator and bond it works on, plus 128 bytes per day it passes over between two dates or across a closure; and a stack of 128 KiB is enough, whatever the size of the data. No call fills tables that grow faster than its input, sets memory aside by the length of a period instead of the number of flows, or recurses once per point, flow or day.",
 ["fault_sequences","histories","inputs"],"every call under a memory limit, objects of any size, intervals and closures of any length, in any order",
 "The tests use a few points, one bond of a few flows and intervals of days, on a default stack with unlimited memory.",
 [YC,BOND,INT,LIN,CAT,HER,NAT,TRI,DATE,CAL,JOINT],[("banded system, not a matrix",TRI+", "+NAT),("one entry per flow",BOND+": new"),("days are walked, not stored",CAL+": business_days_between"),("loops, not recursion",BOND+": discounted_value, "+DATE+": checked_roll")],
 ["completion of the call when allocations beyond the limit are refused and the stack is small, and its result"])

p("C17","Calls leave their surroundings alone",
 "Whatever its arguments, whatever failed or panicked before, whatever the environment, clock, files or heap look like, a call of the library has no effect but its result: it writes nothing to standard output, standard error, a file or a socket, reads nothing from standard input, creates, changes or removes no file, sets no environment variable, working directory or panic hook, starts no process and no thread that outlives the call, does not sleep and never ends the process (a panic reported by the process's own panic hook is that hook's doing). This holds while plug-ins fail or panic inside the call and for concurrent calls.",
 ["fault_sequences","histories","inputs","schedules"],"every call, with a failure, panic or change of surroundings at any plug-in question, in any history and under any schedule",
 "The tests look at returned values only, under the test harness that swallows output.",
 [YC,BOND,INT,LIN,CAT,HER,NAT,TRI,DATE,CAL,JOINT],[("errors are returned, not printed",YC+": discounted_value"),("panics pass through untouched",YC+": new"),("no logging, no caches on disk",CAL+": business_days_between")],
 ["output written during calls","files, environment, working directory and panic hook after calls","threads and processes left behind"])
p("C18","A call's work is in proportion to its input, whatever happened before",
 "Counted in basic blocks executed, the work of a call grows no faster than what it has to look at: a query of an interpolator or curve at most in proportion to its points or pillars, building one at most in proportion to the points given (up to sorting), pricing at most in proportion to flows times pillars, walking a calendar in proportion to the days passed over; it does not grow with the size of the numbers or with how far apart the dates of a query are. And the same call on the same objects costs no more after any history of calls, failures and panics of plug-ins than it costs alone in a fresh process (up to half as much again): nothing kept from earlier calls, successful, failed or abandoned, slows down later ones.",
 ["fault_sequences","histories","inputs"],"every history of calls, failures and panics, any size of data, any dates and arguments",
 "The tests make a few calls on a few points each and measure no work.",
 [YC,BOND,INT,LIN,CAT,HER,NAT,TRI,DATE,CAL,JOINT],[("segment search",INT),("banded elimination",TRI),("one discount factor per flow",BOND+": discounted_value"),("whole months and days added at once",DATE)],
 ["number of basic blocks a call executes"])
p("C19","A call ends at the first failure of a plug-in",
 "When a plug-in fails during a call (the interpolator refuses to be fitted or has no value, the day count, the period or a number conversion reports failure) or panics (these or a calendar), the call is over: before its caller hears of it, it asks its plug-ins at most sixteen more questions, of all kinds together, however many pillars, flows or days are left. It does not go through the rest of its work, does not try again, and does not look for further failures first. That holds at every point of a call, whether the plug-in fails once or for good.",
 ["fault_sequences","crash_points","schedules","inputs"],"every question of every call failing or panicking, once or for good, for all curves, bonds, day counts, calendars and number types, with data changing at the same time from other threads",
 "No test has a plug-in that fails, or counts what is asked afterwards.",
 [YC,BOND,DATE,CAL,JOINT,QCAL,A360,A365,T360],[("collecting into a Result stops at the first error",YC+": new"),("the question mark in the loop over flows",BOND+": discounted_value"),("conversions are checked one by one",BOND+": new, "+A365)],
 ["plug-in calls made between a failure and the end of the call"])

PURE="A pure function of its arguments: "
p("N01","Interpolants reproduce their data and stay within the fitted range",
 "Every fitted interpolator returns the given ordinate at each given abscissa, evaluates its piecewise formula in between, and reports out-of-range arguments as lower or upper bound errors. Unordered or too few points are rejected when fitting.",
 ["inputs"],"all data sets and arguments","Three data sets with collinear points are tested.",[INT,LIN,CAT,HER,NAT],[("segment search",INT),("piecewise formulas",LIN)],["try_fit / try_value results"])
p("N02","Natural cubic splines are twice continuously differentiable",
 "The natural cubic interpolant has continuous first and second derivatives at every interior abscissa and zero second derivative at both ends.",
 ["inputs"],"all data sets of three or more points","The only test has three points on a line, where the linear system has one unknown.",[NAT,TRI],[("tridiagonal solve",TRI)],["values of the interpolant near abscissas"])
p("N03","Day-count fractions follow their convention",
 "Actual/360 and Actual/365 fractions are the signed number of days divided by 360 or 365, and 30/360 counts months as 30 days with day numbers capped at 30, for every pair of dates in order.",
 ["inputs"],"all pairs of dates","One pair per convention.",[A360,A365,T360],[("date difference",T360+": date_diff")],["fractions"])
p("N04","Date arithmetic is the proleptic Gregorian calendar",
 "Adding and subtracting days, months and years, serial numbers, differences and ordering agree with the proleptic Gregorian calendar, with days beyond a month's end clamped to its last day.",
 ["inputs"],"all representable dates and amounts","About ten sample dates.",[DATE],[("chrono",DATE)],["resulting dates"])
p("N05","Built-in holiday calendars list the actual holidays of each market",
 "Each built-in calendar reports exactly the weekends and public or exchange holidays of its market in every supported year, movable feasts included.",
 ["inputs"],"all calendars, markets and years 1901 to 2199","Each calendar is compared with one year (2023) of one market.",[CAL,"third-parties/calendar/src/unitedstates.rs","third-parties/calendar/src/japan.rs"],[("rule lists and Easter tables",CAL)],["business day answers"])
p("N06","Coupon amounts of regular and irregular periods",
 "Each regular coupon is rate times face value over the frequency, and short or long first and last coupons are scaled by the exact fraction of the regular period they span; the face value is repaid at maturity.",
 ["inputs"],"all bonds","One bond is built; no amount is asserted.",[BOND],[("stub fractions",BOND+": first_cash_flow, final_cash_flow")],["prices"])
p("N07","Discount factors chain and start at one",
 "On a curve whose data does not change, the discount factor from a date to itself is one, and discounting from a to b and then b to c equals discounting from a to c.",
 ["inputs"],"all curves and date triples","One date pair on a constant curve.",[YC],[("forward discounting",YC+": discount_factor")],["discount factors"])
p("N08","Weekend adjustment moves weekends to Monday and nothing else",
 "The simple weekend adjustment returns weekdays unchanged and moves Saturdays and Sundays to the following Monday, failing only past the last representable date.",
 ["inputs"],"all dates","One Saturday and one Sunday.",[DATE],[("weekend_roll",DATE)],["adjusted date"])
p("N09","Single and double precision agree",
 "Every computation carried out in single precision agrees with the double precision result up to single precision rounding of well conditioned inputs.",
 ["inputs"],"all computations in both precisions","Only one doc example uses single precision.",[VAL,LIN,YC,BOND],[("generic number trait",VAL)],["results in f32 and f64"])
p("N10","Built-in queries are total on their documented domain",
 "No query on built-in types panics for any argument inside its documented domain: interpolators fitted on any accepted data, calendars for any date, month ends for any month.",
 ["inputs"],"all arguments","A handful of arguments in 2023.",[LIN,HER,CAL,CAT,NAT],[("bounds checks",INT),("Easter table indexing",CAL)],["absence of panics"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
