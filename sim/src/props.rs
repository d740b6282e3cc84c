//! What is simulated for each property: universes, histories, schedules and fault sequences, all from seeds.
#![allow(dead_code)]
use crate::cx::{seam_from, Act, Item, Seam, NSEAM};
use crate::engine::{Base, Bases, Run, Step};
use crate::model;
use crate::obj::*;
use crate::plug::{Market, Per};
use crate::rng::{derive, fnv, Rng};
use crate::rt::{Amb, Policy, Pre, CANON};
use crate::uni::*;

pub const PROPS: [&str; 19] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"];
pub fn is_h(p: &str) -> bool {
    crate::engine::is_h(p)
}
/// runs per universe
pub fn per_uni(p: &str) -> u64 {
    if is_h(p) {
        32
    } else {
        1
    }
}
pub fn uni_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    derive(seed, fnv(prop.as_bytes()), idx)
}
pub fn make_uni(prop: &str, useed: u64) -> Uni {
    match prop {
        "C05" => make_h(useed, true, useed % 3 == 0),
        "C03" | "C12" | "C14" => make_h(useed, true, useed % 2 == 0),
        "C02" => make_h2(useed, useed % 3 == 0, false, true),
        "C01" | "C04" => make_h(useed, useed % 3 == 0, false),
        "C17" if useed % 4 == 1 => make_m(useed),
        "C17" => make_h2(useed, useed % 3 == 0, useed % 5 == 0, true),
        "C16" => make_m(useed),
        "C18" => make_w(useed),
        _ => make_p(prop, useed),
    }
}

fn policy_mix(r: &mut Rng) -> Policy {
    match r.below(6) {
        0 => Policy::Random { seed: r.next(), mean: *r.pick(&[20, 60, 200, 800]), seam_pct: *r.pick(&[0, 20, 50]), hot_pct: 0 },
        1 | 2 => Policy::Random { seed: r.next(), mean: *r.pick(&[500, 5000, 0]), seam_pct: *r.pick(&[0, 10]), hot_pct: *r.pick(&[3, 10, 30, 60]) },
        3 => Policy::Random { seed: r.next(), mean: *r.pick(&[100, 2000, 0]), seam_pct: 60, hot_pct: 5 },
        _ => Policy::Explicit,
    }
}
/// a few preemptions at uniformly chosen points of uniformly chosen calls
fn few_preemptions(r: &mut Rng, tasks: &[Vec<Step>], steps_of: &mut dyn FnMut(usize) -> u64) -> Vec<Pre> {
    let nt = tasks.len() as u32;
    let mut plan = vec![Pre { task: u32::MAX, op: u32::MAX, step: 0, to: r.below(u64::from(nt)) as u32 }];
    for _ in 0..r.range(1, 4) {
        let t = r.idx(tasks.len());
        if tasks[t].is_empty() {
            continue;
        }
        let s = &tasks[t][r.idx(tasks[t].len())];
        let n = steps_of(s.op).max(1);
        let step = match r.below(4) {
            0 => r.below(n.min(60)) + 1,
            _ => r.below(n) + 1,
        };
        let mut to = r.below(u64::from(nt)) as u32;
        if to == t as u32 {
            to = (to + 1) % nt;
        }
        plan.push(Pre { task: t as u32, op: s.uid, step: step as i64, to });
    }
    plan
}
fn all_needs(u: &Uni, tasks: &[Vec<Step>], nested: &[Step]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for s in tasks.iter().flatten().chain(nested) {
        for n in u.needs(s.op) {
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v
}
/// task numbers in plans are absolute: the set-up phase is task 0 when there is one
fn shift(plan: &mut [Pre], by: u32) {
    for p in plan {
        if p.task != u32::MAX {
            p.task += by;
        }
        p.to += by;
    }
}
fn number(tasks: &mut [Vec<Step>], nested: &mut [Step], r: &mut Rng) {
    let mut uid = 0;
    for t in tasks.iter_mut() {
        for s in t {
            s.uid = uid;
            uid += 1;
        }
    }
    for s in nested {
        s.uid = uid;
        uid += 1;
    }
    // global order of a sequential history: a random merge
    let mut left: Vec<usize> = tasks.iter().map(Vec::len).collect();
    let mut at = vec![0usize; tasks.len()];
    let mut seq = 0;
    let mut cur = 0;
    while left.iter().any(|l| *l > 0) {
        if left[cur] == 0 || r.chance(1, 3) {
            loop {
                cur = r.idx(tasks.len());
                if left[cur] > 0 {
                    break;
                }
            }
        }
        tasks[cur][at[cur]].seq = seq;
        seq += 1;
        at[cur] += 1;
        left[cur] -= 1;
    }
}
fn seam_script(r: &mut Rng, b: &Base, act: Act) -> Option<Item> {
    let avail: Vec<usize> = (0..NSEAM).filter(|&i| b.counts[i] > 0).collect();
    if avail.is_empty() {
        return None;
    }
    let s = avail[r.idx(avail.len())];
    let n = b.counts[s];
    let k = match r.below(4) {
        0 => 1,
        1 => n,
        _ => r.below(n) + 1,
    };
    Some(Item { seam: seam_from(s as i64), k, act })
}
fn gen_amb(r: &mut Rng, u: &Uni) -> Amb {
    let day = 86_400_000_000_000i64;
    let mut a = CANON.clone();
    // epoch is day number 719163
    let known = u.ops.iter().filter_map(|o| match o {
        Op::Roll { day, .. } | Op::CalDay { day, .. } | Op::Date { day, .. } => Some(*day),
        Op::Df { a, .. } | Op::Bdb { a, .. } | Op::Dcf { a, .. } => Some(*a),
        Op::Pv { settle, .. } => Some(*settle),
        _ => None,
    });
    let known: Vec<i64> = known.collect();
    let settles: Vec<i64> = u.specs.iter().filter_map(|s| match s {
        Spec::Curve { settle, .. } => Some(*settle),
        Spec::Bond { first, .. } => Some(*first),
        _ => None,
    }).collect();
    a.real = match r.below(8) {
        0 => 0,
        1 if !known.is_empty() => (known[r.idx(known.len())] - 719_163).clamp(-100_000, 100_000) * day + r.range(0, 86_399) * 1_000_000_000,
        2 if !settles.is_empty() => (settles[r.idx(settles.len())] - 719_163).clamp(-100_000, 100_000) * day + r.range(0, 86_399) * 1_000_000_000,
        3 => -r.range(1, 10_000) * day,
        4 => r.range(0, 90_000) * day,
        5 => 2_147_483_647_000_000_000 + r.range(-2, 2) * 1_000_000_000,
        _ => r.range(9_000, 30_000) * day + r.range(0, 86_399_999_999_999),
    };
    a.mono = match r.below(4) {
        0 => 1,
        1 => r.range(1, 100) * day,
        _ => r.range(1, 4_000_000_000_000_000),
    };
    a.entropy = r.next();
    a.env = r.range(0, 4096);
    a.file_fail = match r.below(4) {
        0 => r.range(0, 2),
        _ => r.range(3, 4096),
    };
    a.cpus = *r.pick(&[1, 1, 2, 3, 4, 7, 16, 64]);
    a.pid = r.range(1, 4_000_000);
    a
}

/// how long a repeated call may take in all
fn repeat_bound(u: &Uni, of: usize) -> u64 {
    match &u.ops[of] {
        Op::Build { at, .. } if !at.is_empty() => 400_000_000,
        _ => 14_000_000,
    }
}
pub fn gen_run_h(prop: &str, u: &Uni, useed: u64, seed: u64, bases: &mut Bases) -> Run {
    let mut r = Rng::new(seed);
    let nops = u.ops.len();
    let mut focus: Vec<usize> = (0..r.range(1, 4)).map(|_| r.idx(nops)).collect();
    if r.chance(1, 3) {
        // all operations touching one object
        let objs: Vec<usize> = u.needs(focus[0]);
        if let Some(o) = objs.first() {
            for i in 0..nops {
                if u.needs(i).contains(o) {
                    focus.push(i);
                }
            }
        }
    }
    let mut run = Run { prop: prop.into(), useed, seed, prebuild: vec![], tasks: vec![], nested: vec![], policy: Policy::Seq, plan: vec![] };
    let pickop = |r: &mut Rng, f: &[usize]| if r.chance(7, 10) { f[r.idx(f.len())] } else { r.idx(nops) };
    let concurrent = match prop {
        "C01" | "C14" => true,
        "C02" => false,
        "C03" => r.chance(1, 2),
        "C12" | "C16" | "C18" => false,
        "C17" => r.chance(1, 6),
        _ => r.chance(1, 4),
    };
    let (nt, len) = match prop {
        "C02" => {
            let l = match r.below(100) {
                0 => r.range(8_000, 14_000),
                1..=8 => r.range(600, 2500),
                9..=30 => r.range(60, 400),
                _ => r.range(4, 60),
            };
            let nt = *r.pick(&[1, 1, 2, 3]);
            (nt, (l / nt).max(1))
        }
        "C12" => (1, *r.pick(&[1, 1, 2, 3, 4, 6])),
        "C18" if seed & 12 == 0 => (1, *r.pick(&[1, 1, 2, 3])),
        "C17" | "C18" if !concurrent => (*r.pick(&[1, 1, 2]), *r.pick(&[1, 2, 4, 8, 8, 20, 60, 200])),
        "C16" => (*r.pick(&[1, 1, 1, 2]), *r.pick(&[1, 1, 2, 3, 4])),
        "C01" => (*r.pick(&[2, 2, 2, 3, 3, 4, 6]), *r.pick(&[1, 1, 2, 3, 5, 8, 12])),
        _ if concurrent => (*r.pick(&[2, 2, 3, 4]), *r.pick(&[1, 2, 3, 5])),
        _ => (*r.pick(&[1, 2, 3]), *r.pick(&[1, 2, 4, 8, 20])),
    };
    // many dying calls in a row: what a counter or a pool can take before it runs dry
    let barrage = prop == "C03" && !concurrent && r.chance(1, 10);
    let (nt, len) = if barrage { (1, *r.pick(&[20, 40, 80, 160, 160, 300, 600, 1200])) } else { (nt, len) };
    let fresh_focus = r.chance(1, 3);
    for _ in 0..nt {
        let mut t = vec![];
        let mut cost = 0;
        for i in 0..len {
            if cost > 6_000_000 {
                break;
            }
            if fresh_focus && i % 64 == 63 {
                focus = (0..r.range(1, 6)).map(|_| r.idx(nops)).collect();
            }
            let mut op = pickop(&mut r, &focus);
            if let Op::Repeat { of, .. } = u.ops[op] {
                op = of;
            }
            if barrage {
                cost += bases.get(prop, op).steps;
            }
            t.push(Step { op, ..Default::default() });
        }
        run.tasks.push(t);
    }
    if (prop == "C02" || prop == "C17" && !concurrent) && r.chance(2, 3) {
        // a repeated call early in a short history
        let rep: Vec<usize> = (0..nops).filter(|&o| if let Op::Repeat { of, n } = u.ops[o] { bases.get(prop, of).steps * n as u64 <= repeat_bound(u, of) } else { false }).collect();
        if !rep.is_empty() {
            let t = r.idx(run.tasks.len());
            run.tasks[t].truncate(60);
            let at = r.idx(run.tasks[t].len().min(10) + 1);
            let op = rep[r.idx(rep.len())];
            run.tasks[t].insert(at, Step { op, ..Default::default() });
            if let (Op::Repeat { of, .. }, true) = (&u.ops[op], r.chance(1, 2)) {
                // just before and just after it: calls like the repeated one
                let mut kin: Vec<usize> = (0..nops).filter(|&o| !matches!(u.ops[o], Op::Repeat { .. }) && std::mem::discriminant(&u.ops[o]) == std::mem::discriminant(&u.ops[*of])).collect();
                if let Op::Build { at: asked, .. } = &u.ops[*of] {
                    if !asked.is_empty() {
                        kin.retain(|&o| matches!(&u.ops[o], Op::Build { at, .. } if at == asked));
                    }
                }
                for at in [at, at + 2] {
                    for _ in 0..r.range(1, 2) {
                        run.tasks[t].insert(at, Step { op: kin[r.idx(kin.len())], ..Default::default() });
                    }
                }
            }
        }
    }
    // faults
    let total: usize = run.tasks.iter().map(Vec::len).sum();
    match prop {
        "C02" => {
            let (dropp, failp) = (*r.pick(&[0, 3, 15, 40]), *r.pick(&[0, 0, 4]));
            let nspec = u.specs.len();
            for t in &mut run.tasks {
                for s in t {
                    if nspec > 0 && r.chance(dropp, 100) {
                        for _ in 0..r.range(1, 3) {
                            let d = r.idx(nspec);
                            if !s.drops.contains(&d) {
                                s.drops.push(d);
                            }
                        }
                    }
                    if total < 300 && r.chance(failp, 100) {
                        let b = bases.get(prop, s.op);
                        s.script.extend(seam_script(&mut r, &b, Act::Panic));
                    }
                }
            }
        }
        "C03" => {
            // calls made by destructors that run while a thread unwinds; some of these panic, too
            let nn = if r.chance(1, 3) { r.range(1, 4) } else { 0 };
            for i in 0..nn {
                let op = if r.chance(1, 2) { focus[r.idx(focus.len())] } else { r.idx(nops) };
                let mut s = Step { op, ..Default::default() };
                if r.chance(1, 3) {
                    let b = bases.get(prop, op);
                    let act = if i + 1 < nn && r.chance(1, 2) { Act::PanicCall(r.range(i + 1, nn - 1)) } else { Act::Panic };
                    s.script.extend(seam_script(&mut r, &b, act));
                }
                run.nested.push(s);
            }
            let dying = |r: &mut Rng| if nn > 0 && r.chance(1, 2) { Act::PanicCall(r.range(0, nn - 1)) } else { Act::Panic };
            let mut any = false;
            for t in &mut run.tasks {
                for s in t {
                    if r.chance(if barrage { 9 } else { 4 }, 10) {
                        let b = bases.get(prop, s.op);
                        let act = dying(&mut r);
                        if let Some(i) = seam_script(&mut r, &b, act) {
                            s.script.push(i);
                            any = true;
                        }
                    }
                }
            }
            if !any {
                // put at least one dying call in front
                for o in 0..nops.min(40) {
                    let op = (o + r.idx(nops)) % nops;
                    let b = bases.get(prop, op);
                    let act = dying(&mut r);
                    if let Some(i) = seam_script(&mut r, &b, act) {
                        run.tasks[0].insert(0, Step { op, script: vec![i], ..Default::default() });
                        break;
                    }
                }
            }
        }
        "C14" => {
            let mut any = false;
            if r.chance(1, 5) {
                // a crowd of stalled calls of one kind: what a number of permits or a pool can take
                for _ in 0..8 {
                    let like = r.idx(nops);
                    let kind = std::mem::discriminant(&u.ops[like]);
                    let same: Vec<usize> = (0..nops).filter(|&o| std::mem::discriminant(&u.ops[o]) == kind).collect();
                    let mix = r.chance(1, 3);
                    for _ in 0..*r.pick(&[5, 8, 12, 18, 34]) {
                        let op = if mix { same[r.idx(same.len())] } else { like };
                        let b = bases.get(prop, op);
                        if let Some(it) = seam_script(&mut r, &b, Act::Stall) {
                            run.tasks.push(vec![Step { op, script: vec![it], ..Default::default() }]);
                            any = true;
                        }
                    }
                    if any {
                        run.tasks.push(vec![Step { op: like, ..Default::default() }]);
                        break;
                    }
                }
            }
            for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                let t = r.idx(run.tasks.len());
                let i = if r.chance(2, 3) { 0 } else { r.idx(run.tasks[t].len()) };
                let b = bases.get(prop, run.tasks[t][i].op);
                if let Some(it) = seam_script(&mut r, &b, Act::Stall) {
                    run.tasks[t][i].script.push(it);
                    any = true;
                }
            }
            if !any {
                for o in 0..nops.min(40) {
                    let op = (o + r.idx(nops)) % nops;
                    let b = bases.get(prop, op);
                    if let Some(it) = seam_script(&mut r, &b, Act::Stall) {
                        run.tasks[0].insert(0, Step { op, script: vec![it], ..Default::default() });
                        break;
                    }
                }
            }
        }
        "C17" | "C18" => {
            if !u.pairs.is_empty() && r.chance(2, 3) {
                let (_, op, _) = u.pairs[r.idx(u.pairs.len())];
                let t = r.idx(run.tasks.len());
                let at = r.idx(run.tasks[t].len() + 1);
                run.tasks[t].insert(at, Step { op, ..Default::default() });
            }
            let (failp, ambp, dropp) = (*r.pick(&[0, 20, 60]), if prop == "C17" { *r.pick(&[0, 20, 100]) } else { 0 }, if concurrent { 0 } else { *r.pick(&[0, 10]) });
            for s in run.tasks.iter_mut().flatten() {
                if r.chance(failp, 100) {
                    let b = bases.get(prop, s.op);
                    let act = match r.below(6) {
                        0 => Act::Panic,
                        1 => Act::Limit(*r.pick(&[0, 2, 100, 364])),
                        2 => Act::FailFrom(r.range(0, 3)),
                        3 if prop == "C17" => Act::Jump(r.range(-4_000_000_000, 4_000_000_000), r.range(0, 1_000_000_000)),
                        _ => Act::Fail(r.range(0, 3)),
                    };
                    s.script.extend(seam_script(&mut r, &b, act));
                }
                if r.chance(ambp, 100) {
                    s.amb = Some(gen_amb(&mut r, u));
                }
                if !u.specs.is_empty() && r.chance(dropp, 100) {
                    s.drops.push(r.idx(u.specs.len()));
                }
            }
        }
        "C12" => {
            for s in run.tasks.iter_mut().flatten() {
                if r.chance(7, 10) {
                    let b = bases.get(prop, s.op);
                    for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                        let act = match r.below(5) {
                            0 | 1 => Act::Panic,
                            4 => Act::Limit(*r.pick(&[0, 2, 100, 364])),
                            _ => Act::Fail(r.range(0, 3)),
                        };
                        s.script.extend(seam_script(&mut r, &b, act));
                    }
                }
            }
        }
        "C04" => {
            let each = r.chance(2, 3);
            let a0 = gen_amb(&mut r, u);
            for t in &mut run.tasks {
                for s in t {
                    s.amb = Some(if each { gen_amb(&mut r, u) } else { a0.clone() });
                    s.junk = if r.chance(1, 2) { (r.next() & 0xffff) as u32 } else { 0 };
                    if r.chance(1, 4) {
                        let b = bases.get(prop, s.op);
                        let act = Act::Jump(r.range(-4_000_000_000, 4_000_000_000), r.range(0, 1_000_000_000));
                        s.script.extend(seam_script(&mut r, &b, act));
                    }
                }
            }
        }
        "C05" => {
            // mostly shallow; sometimes one long chain of calls inside calls
            let chain = r.chance(1, 6);
            let nn = if chain { 1usize << r.range(3, 6) } else { r.range(1, 6) as usize };
            let mut link = r.idx(nops);
            if chain {
                for _ in 0..20 {
                    let b = bases.get(prop, link);
                    if b.steps < 40_000 && b.counts.iter().any(|c| *c > 0) {
                        break;
                    }
                    link = if r.chance(1, 3) { focus[r.idx(focus.len())] } else { r.idx(nops) };
                }
            }
            let same = r.chance(1, 2);
            for i in 0..nn {
                if chain {
                    let mut op = link;
                    if !same && r.chance(1, 2) {
                        op = r.idx(nops);
                        let b = bases.get(prop, op);
                        if b.steps > 40_000 || b.counts.iter().all(|c| *c == 0) {
                            op = link;
                        }
                    }
                    let mut s = Step { op, ..Default::default() };
                    if i + 1 < nn {
                        let b = bases.get(prop, op);
                        s.script.extend(seam_script(&mut r, &b, Act::Nested(i as i64 + 1)));
                    }
                    run.nested.push(s);
                    continue;
                }
                let op = if r.chance(2, 3) { focus[r.idx(focus.len())] } else { r.idx(nops) };
                let mut s = Step { op, ..Default::default() };
                if i + 1 < nn && r.chance(1, 2) {
                    let b = bases.get(prop, op);
                    let a = Act::Nested(r.range(i as i64 + 1, nn as i64 - 1));
                    s.script.extend(seam_script(&mut r, &b, a));
                }
                run.nested.push(s);
            }
            for t in &mut run.tasks {
                for s in t {
                    for _ in 0..r.range(0, 2) {
                        let b = bases.get(prop, s.op);
                        let a = Act::Nested(if chain { 0 } else { r.range(0, nn as i64 - 1) });
                        s.script.extend(seam_script(&mut r, &b, a));
                    }
                }
            }
            if chain {
                // the outer call too
                let b = bases.get(prop, link);
                let script: Vec<Item> = seam_script(&mut r, &b, Act::Nested(0)).into_iter().collect();
                run.tasks[0].insert(0, Step { op: link, script, ..Default::default() });
            }
            if run.tasks.iter().flatten().all(|s| s.script.is_empty()) {
                for o in 0..nops.min(40) {
                    let op = (o + r.idx(nops)) % nops;
                    let b = bases.get(prop, op);
                    let a = Act::Nested(r.range(0, nn as i64 - 1));
                    if let Some(i) = seam_script(&mut r, &b, a) {
                        run.tasks[0].insert(0, Step { op, script: vec![i], ..Default::default() });
                        break;
                    }
                }
            }
        }
        _ => {}
    }
    if prop != "C12" {
        // a bound on the simulated length of the history
        let tight = matches!(prop, "C02" | "C17" | "C18");
        let mut left: u64 = if tight {
            20_000_000 + run.tasks.iter().flatten().map(|s| if let Op::Repeat { of, .. } = u.ops[s.op] { repeat_bound(u, of) } else { 0 }).max().unwrap_or(0)
        } else {
            120_000_000
        };
        // what a call takes with the calls its plug-ins make
        let mut inner = vec![0u64; run.nested.len()];
        let below = |s: &Step, inner: &[u64]| s.script.iter().map(|i| if let Act::Nested(a) | Act::PanicCall(a) = i.act { inner.get(a as usize).copied().unwrap_or(0) } else { 0 }).sum::<u64>();
        for i in (0..run.nested.len()).rev() {
            inner[i] = bases.get(prop, run.nested[i].op).steps + below(&run.nested[i], &inner);
        }
        for t in &mut run.tasks {
            let mut n = 0;
            while n < t.len() {
                let c = bases.get(prop, t[n].op).steps + below(&t[n], &inner);
                if c > left && (n > 4 || c > 1_000_000) {
                    t.remove(n);
                    if c > 100_000 {
                        continue;
                    }
                    t.truncate(n);
                    break;
                }
                left = left.saturating_sub(c);
                n += 1;
            }
        }
    }
    number(&mut run.tasks, &mut run.nested, &mut r);
    let must = prop != "C12" && (prop != "C18" || seed & 12 != 0) && (prop != "C02" || r.chance(1, 3));
    if must {
        run.prebuild = all_needs(u, &run.tasks, &run.nested);
        r.shuffle(&mut run.prebuild);
    }
    if concurrent {
        run.policy = policy_mix(&mut r);
        if matches!(run.policy, Policy::Explicit) {
            run.plan = few_preemptions(&mut r, &run.tasks, &mut |o| bases.get(prop, o).steps);
            shift(&mut run.plan, u32::from(!run.prebuild.is_empty()));
        }
    }
    sizes(prop, u, &run, bases);
    // every operation needs its baseline
    for s in run.tasks.iter().flatten().chain(&run.nested) {
        bases.get(prop, s.op);
    }
    run
}

/// C18: calls on large objects need their small counterparts for comparison
pub fn sizes(prop: &str, u: &Uni, run: &Run, bases: &mut Bases) {
    for (small, big, _) in &u.pairs {
        if run.tasks.iter().flatten().any(|s| s.op == *big) {
            bases.get(prop, *small);
        }
    }
}
// ---- plug-in properties ----------------------------------------------------------------------------------------
fn horizon(r: &mut Rng, p: u64) -> f64 {
    if r.chance(p, 10) {
        *r.pick(&[0.5, 1.0, 2.0, 3.5, 5.0, 8.0, 0.1])
    } else {
        f64::INFINITY
    }
}
/// C13: the calls of another plug-in property
fn sub13(useed: u64) -> &'static str {
    ["C06", "C07", "C08", "C09", "C11"][(useed >> 7) as usize % 5]
}
fn sub15(useed: u64) -> &'static str {
    ["C06", "C07", "C09", "C10", "C11", "C11"][(useed >> 7) as usize % 6]
}
fn sub19(useed: u64) -> &'static str {
    ["C06", "C07", "C07", "C08", "C09", "C11"][(useed >> 7) as usize % 6]
}
pub fn make_p(prop: &str, seed: u64) -> Uni {
    let big = matches!(prop, "C13" | "C19");
    let prop = match prop {
        "C13" => sub13(seed),
        "C15" => sub15(seed),
        "C19" => sub19(seed),
        p => p,
    };
    let mut r = Rng::new(seed);
    let mut u = Uni::default();
    let base = gen_day(&mut r).clamp(model::serial(1950, 1, 1), model::serial(2100, 1, 1));
    let kinds: &[u8] = &[SIM, SIM, SIM, SIM, SIM, SIM, LIN, NAT, CAT];
    match prop {
        "C06" => {
            for _ in 0..2 {
                let h = horizon(&mut r, 2);
                u.markets.push(Market { bp: r.range(-100, 100), version: 0, horizon: h });
            }
            for _ in 0..r.range(1, 3) {
                let mut s = gen_curve(&mut r, base, None, kinds, &[0, 0, 1, 2, 2], 2);
                if let Spec::Curve { mats, ys, settle, kind, dc, .. } = &mut s {
                    if *kind == SIM && r.chance(1, 3) {
                        // maturities in any order, repeated, or before settlement
                        match r.below(5) {
                            0 => r.shuffle(mats),
                            1 => {
                                let m = mats[r.idx(mats.len())];
                                let at = r.idx(mats.len() + 1);
                                mats.insert(at, m);
                                ys.insert(at, 0.0123);
                            }
                            2 => {
                                let at = r.idx(mats.len() + 1);
                                mats.insert(at, *settle);
                                ys.insert(at, 0.0456);
                            }
                            3 if *dc != T360 => {
                                mats.insert(0, *settle - 30);
                                ys.insert(0, 0.0789);
                            }
                            _ => {
                                mats.truncate(r.idx(2));
                                ys.truncate(mats.len());
                            }
                        }
                    }
                    if r.chance(1, 12) {
                        if r.chance(1, 2) {
                            ys.pop();
                        } else {
                            ys.push(0.01);
                        }
                    }
                }
                u.specs.push(s);
            }
            let nc = u.specs.len();
            for _ in 0..r.range(6, 14) {
                let s = r.idx(nc);
                let Spec::Curve { settle, mats, .. } = &u.specs[s] else { continue };
                let set = *settle;
                let dates: Vec<i64> = mats.iter().copied().filter(|m| *m >= set).chain([set, set + 1, set + 200, set + 1000]).collect();
                let o = if r.chance(1, 4) {
                    Op::Build { s, c: 0, at: vec![] }
                } else {
                    let a = match r.below(6) {
                        0 | 1 => set,
                        2 => set - r.range(1, 5),
                        _ => *r.pick(&dates),
                    };
                    let b = match r.below(8) {
                        0 | 1 => a,
                        2 => a - 1,
                        3 => *r.pick(&dates),
                        _ => a.max(set) + r.range(0, 2500),
                    };
                    Op::Df { s, a, b }
                };
                u.ops.push(o);
            }
            for _ in 0..3 {
                u.ops.push(Op::Market { m: r.idx(2), bp: r.range(-300, 300) });
            }
        }
        "C07" => {
            for _ in 0..2 {
                let h = horizon(&mut r, 3);
                u.markets.push(Market { bp: r.range(-100, 100), version: 0, horizon: h });
            }
            let nc = r.range(1, 2) as usize;
            for _ in 0..nc {
                u.specs.push(gen_curve(&mut r, base, None, kinds, &[0, 0, 0, 1, 2], 2));
            }
            let long = r.chance(if big { 6 } else { 1 }, 10);
            for _ in 0..r.range(1, 3) {
                let Spec::Curve { prec, .. } = &u.specs[r.idx(nc)] else { continue };
                let p = *prec;
                let s = gen_bond(&mut r, base, None, p, long);
                u.specs.push(s);
            }
            for _ in 0..r.range(6, 14) {
                let Some((b, c)) = pair(&u, &mut r, nc) else { break };
                let (Spec::Curve { settle: set, .. }, Spec::Bond { issue, first, pen, mat, .. }) = (&u.specs[c], &u.specs[b]) else { continue };
                let (set, fl) = (*set, model::flows(*issue, *first, *pen, *mat, 0.05, 100.0).unwrap_or_default());
                let settle = match r.below(10) {
                    0..=2 => set,
                    3 if !fl.is_empty() => fl[r.idx(fl.len())].due,
                    4 if !fl.is_empty() => fl[r.idx(fl.len())].due - 1,
                    5 if !fl.is_empty() => fl[r.idx(fl.len())].pay,
                    6 => *mat + r.range(0, 2),
                    7 => set - r.range(1, 400),
                    8 if !fl.is_empty() => (fl[fl.len() - 1].due - r.range(1, 400)).max(set),
                    _ => set + r.range(1, 1500),
                };
                u.ops.push(Op::Pv { b, c, settle });
            }
            for _ in 0..3 {
                u.ops.push(Op::Market { m: r.idx(2), bp: r.range(-300, 300) });
            }
        }
        "C08" => {
            u.markets.push(Market { bp: 25, version: 0, horizon: f64::INFINITY });
            for prec in [2u8, 0, 1] {
                let mut s = gen_curve(&mut r, base - 4000, None, &[SIM], &[prec], 1);
                if let Spec::Curve { dc, .. } = &mut s {
                    *dc = *r.pick(&[A365, DSIM, T360]);
                }
                u.specs.push(s);
            }
            for _ in 0..r.range(3, 6) {
                let prec = *r.pick(&[2, 2, 2, 2, 0, 1]);
                let long = r.chance(1, 20);
                let mut s = gen_bond(&mut r, base, None, prec, long);
                if let Spec::Bond { issue, first, pen, mat, .. } = &mut s {
                    match r.below(12) {
                        0 => {
                            // (an issue date one period before the first coupon would make this a single-payment bond)
                            *pen = *first - r.range(1, 400);
                            if model::add_months(*first, -6) == Some(*issue) {
                                *issue -= 10;
                            }
                        }
                        1 => {
                            // a schedule reaching the end of the calendar
                            let sh = model::max_day() - r.range(0, 500) - *mat;
                            for d in [issue, first, pen, mat] {
                                *d = (*d + sh).min(model::max_day());
                            }
                        }
                        2 => {
                            let sh = model::min_day() + r.range(0, 500) - *issue;
                            for d in [issue, first, pen, mat] {
                                *d += sh;
                            }
                        }
                        _ => {}
                    }
                }
                u.specs.push(s);
            }
            for s in 3..u.specs.len() {
                let Spec::Bond { prec, issue, first, pen, mat, .. } = &u.specs[s] else { continue };
                let c = match prec {
                    2 => 0,
                    0 => 1,
                    _ => 2,
                };
                let near = (*first - base).abs() < 60_000;
                let mut at = vec![];
                if near {
                    if let Some(fl) = model::flows(*issue, *first, *pen, *mat, 0.05, 100.0) {
                        let Spec::Curve { settle, .. } = &u.specs[c] else { continue };
                        at.push(*settle as f64);
                        at.push((*first - 1) as f64);
                        at.push(*mat as f64);
                        for f in fl.iter().take(30) {
                            if f.due > *settle {
                                at.push(f.due as f64);
                            }
                        }
                        at.retain(|x| *x >= *settle as f64);
                    }
                }
                u.ops.push(Op::Build { s, c, at });
            }
            for _ in 0..r.range(3, 8) {
                let a = kin(&mut r, base);
                let b = if r.chance(3, 4) { a + r.range(0, 4000) } else { kin(&mut r, base) };
                u.ops.push(Op::Dcf { dc: *r.pick(&[A360, A365, T360]), prec: *r.pick(&[2, 2, 0, 1]), a, b });
            }
        }
        _ => {
            // calendars
            let edge = prop == "C10" && r.chance(2, 3);
            let b2 = if edge {
                if r.chance(1, 2) {
                    model::max_day() - r.range(0, 400)
                } else {
                    model::min_day() + r.range(0, 400)
                }
            } else {
                base
            };
            for _ in 0..4 {
                let mut p = gen_pattern(&mut r, b2);
                if edge && r.chance(2, 3) {
                    let l = r.range(0, 300);
                    p.closed.push(if b2 > 0 { (model::max_day() - l, model::max_day()) } else { (model::min_day(), model::min_day() + l) });
                    if r.chance(1, 4) {
                        p.open.push(if b2 > 0 { model::max_day() } else { model::min_day() });
                    }
                }
                u.cals.push(p);
            }
            // a closure of decades or centuries, in the middle of the date range
            let era = (prop == "C10" && !edge && r.chance(1, 60)).then(|| {
                let len = 1000i64 << r.range(1, 8);
                let len = len + r.range(0, len);
                let s = base + r.range(0, 60);
                let back = r.chance(1, 2);
                u.cals[0].closed.push(if back { (s - len, s) } else { (s, s + len) });
                (s, back)
            });
            let nreal = crate::calreg::reg().len();
            if let Some((s, back)) = era {
                for _ in 0..2 {
                    let conv = *r.pick(if back { &[3u8, 4, 3, 2] } else { &[1u8, 2, 1, 4] });
                    let cal = *r.pick(&[CalRef::C(0), CalRef::Q(0), CalRef::J2(0, 1), CalRef::J2(2, 0)]);
                    let off = r.range(0, 5);
                    u.ops.push(Op::Roll { cal, day: if back { s - off } else { s + off }, per: Per::D(*r.pick(&[0, 1, 3])), conv });
                }
            }
            for _ in 0..if era.is_some() { 3 } else { r.range(6, 14) } {
                let mut cal = match r.below(10) {
                    0..=3 => CalRef::C(r.idx(4)),
                    4..=5 => CalRef::Q(r.idx(4)),
                    6 => CalRef::J2(r.idx(4), r.idx(4)),
                    7 => CalRef::J3(r.idx(4), r.idx(4), r.idx(4)),
                    8 => CalRef::J4(r.idx(4), r.idx(4), r.idx(4), r.idx(4)),
                    _ => CalRef::Real(r.idx(nreal)),
                };
                if prop == "C10" {
                    if let CalRef::Real(_) = cal {
                        cal = CalRef::Real(crate::calreg::reg().iter().position(|e| e.name == "WeekendsOnly").unwrap());
                    }
                }
                let day = if edge { b2 + r.range(-30, 30) } else { kin(&mut r, base) }.clamp(model::min_day(), model::max_day());
                // the tables of the built-in calendars end in 1901 and 2199
                let day = if prop != "C10" && matches!(cal, CalRef::Real(_)) { day.clamp(model::serial(1932, 1, 1), model::serial(2160, 1, 1)) } else { day };
                let mut per = gen_per(&mut r);
                if prop == "C10" && r.chance(1, 3) {
                    per = match r.below(4) {
                        0 => Per::Y(*r.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, 262_142, -262_143, 300_000, -300_000, 260_000])),
                        1 => Per::M(*r.pick(&[u32::MAX, u32::MAX - 1, i32::MAX as u32, 3_000_000, 12 * 262_000])),
                        _ => Per::D(*r.pick(&[u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, u64::from(u32::MAX), i32::MAX as u64, i32::MAX as u64 + 1, 95_000_000, 400])),
                    };
                    if matches!(cal, CalRef::Real(_)) && matches!(per, Per::Y(_)) {
                        per = Per::Y(i32::MAX);
                    }
                }
                let conv = r.below(5) as u8;
                let o = if prop == "C11" {
                    match r.below(10) {
                        0..=3 => {
                            let a = day;
                            let b = match r.below(8) {
                                0 => a,
                                1 => a + 1,
                                2 => a - 1,
                                3 if r.chance(1, 14) => {
                                    let b = a + (10i64 << r.range(1, 13)) * *r.pick(&[1, 1, -1]) + r.range(-9, 9);
                                    if matches!(cal, CalRef::Real(_)) { b.clamp(model::serial(1903, 1, 1), model::serial(2197, 1, 1)) } else { b.clamp(model::min_day(), model::max_day()) }
                                }
                                _ => a + r.range(-60, 120),
                            };
                            Op::Bdb { cal, a, b, f: *r.pick(&[None, Some(true), Some(false)]), l: *r.pick(&[None, Some(true), Some(false)]) }
                        }
                        4 | 5 => Op::CalDay { cal, k: CK::Eom, day },
                        6 => Op::CalDay { cal, k: CK::Hol, day },
                        7 => Op::CalDay { cal, k: CK::HolQ, day },
                        8 => Op::CalDay { cal, k: CK::BizQ, day },
                        _ => Op::CalDay { cal, k: CK::Biz, day },
                    }
                } else {
                    Op::Roll { cal, day, per, conv }
                };
                u.ops.push(o);
            }
            if prop != "C10" {
                for _ in 0..4 {
                    let near = u.ops.iter().filter_map(op_day).nth(r.idx(6)).unwrap_or(base);
                    u.ops.push(Op::Flip { cal: r.idx(4), day: near + r.range(0, 12) });
                }
            } else {
                for c in 0..4 {
                    u.ops.push(Op::Outage { cal: c, on: true });
                    u.ops.push(Op::Outage { cal: c, on: false });
                }
            }
        }
    }
    u
}
fn op_day(o: &Op) -> Option<i64> {
    match o {
        Op::Roll { day, per, .. } => per.model(*day),
        Op::CalDay { day, .. } => Some(*day),
        Op::Bdb { a, .. } => Some(*a),
        _ => None,
    }
}
fn pair(u: &Uni, r: &mut Rng, nc: usize) -> Option<(usize, usize)> {
    let mut v = vec![];
    for b in nc..u.specs.len() {
        for c in 0..nc {
            if let (Spec::Bond { prec: p, .. }, Spec::Curve { prec: q, .. }) = (&u.specs[b], &u.specs[c]) {
                if p == q {
                    v.push((b, c));
                }
            }
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(v[r.idx(v.len())])
    }
}
fn is_env(o: &Op) -> bool {
    matches!(o, Op::Market { .. } | Op::Flip { .. } | Op::Outage { .. })
}
fn faults_p(prop: &str, r: &mut Rng, u: &Uni, op: &Op) -> Vec<Item> {
    let mut v = vec![];
    let mut add = |seam: Seam, k: i64, act: Act| v.push(Item { seam, k: k.max(1) as u64, act });
    match prop {
        "C06" | "C07" => {
            let span = match op {
                Op::Build { s, .. } => match &u.specs[*s] {
                    Spec::Curve { mats, .. } => mats.len() as i64 + 1,
                    _ => 4,
                },
                Op::Pv { b, .. } => match &u.specs[*b] {
                    Spec::Bond { first, pen, .. } => 2 * ((pen - first) / 182 + 2),
                    _ => 4,
                },
                _ => 2,
            };
            // the splines document that they panic when a constant cannot be represented
            let sim_cast = match op {
                Op::Build { s, .. } | Op::Df { s, .. } => matches!(&u.specs[*s], Spec::Curve { prec: 2, kind: SIM | LIN, .. }),
                Op::Pv { c, .. } => matches!(&u.specs[*c], Spec::Curve { prec: 2, kind: SIM | LIN, .. }),
                _ => false,
            };
            let build = matches!(op, Op::Build { .. });
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                match r.below(10) {
                    0..=2 if build => add(Seam::Fit, 1, Act::Fail(r.range(0, 3))),
                    0..=2 => add(Seam::Value, r.range(1, span), Act::Fail(r.range(0, 3))),
                    3 | 4 => add(Seam::DayCount, r.range(1, span), Act::Fail(r.range(0, 3))),
                    5 if sim_cast => add(Seam::Cast, r.range(1, 2 * span), Act::Fail(0)),
                    6 => {
                        let s = *r.pick(&[Seam::Value, Seam::DayCount, Seam::Fit]);
                        add(s, r.range(1, span), Act::Panic);
                    }
                    _ => {
                        let s = *r.pick(&[Seam::Value, Seam::DayCount]);
                        add(s, r.range(1, span), Act::Market(r.range(0, 1), r.range(-400, 400)));
                    }
                }
            }
        }
        "C08" => {
            let simp = match op {
                Op::Build { s, .. } => matches!(&u.specs[*s], Spec::Bond { prec: 2, .. }),
                Op::Dcf { prec: 2, .. } => true,
                _ => false,
            };
            if simp {
                match r.below(10) {
                    0 | 2 => add(Seam::Cast, 1, Act::Limit(*r.pick(&[0, 1, 2, 3, 100, 127, 180, 181, 182, 183, 184, 359, 360, 364, 365]))),
                    1 => add(Seam::Cast, r.range(1, 6), Act::Limit(*r.pick(&[0, 2, 100, 181, 364]))),
                    3 => add(Seam::Cast, r.range(1, 6), Act::Panic),
                    _ => add(Seam::Cast, r.range(1, if matches!(op, Op::Dcf { .. }) { 2 } else { 7 }), Act::Fail(0)),
                }
            }
        }
        "C09" | "C11" => {
            let n = match op {
                Op::Bdb { a, b, .. } => (b - a).abs().max(1),
                _ => 8,
            };
            for _ in 0..*r.pick(&[1, 1, 2, 3, 6]) {
                let k = if r.chance(1, 2) { r.range(1, 4) } else { r.range(1, n + 3) };
                match r.below(12) {
                    0 if prop == "C09" => add(Seam::Period, r.range(1, 2), Act::Fail(0)),
                    1 => add(Seam::Cal, k, Act::Panic),
                    2..=4 => add(Seam::Cal, k, Act::FlipAsked(0, 1)),
                    5 | 6 => add(Seam::Cal, k, Act::FlipAsked(0, 0)),
                    _ => {
                        let near = op_day(op).unwrap_or(0);
                        add(Seam::Cal, k, Act::Flip(r.range(0, 3), near + r.range(-6, 9)));
                    }
                }
            }
        }
        _ => {}
    }
    v
}
fn lasting_p(r: &mut Rng, op: &Op) -> Vec<Item> {
    let mut v = vec![];
    let k = if r.chance(2, 3) { 1 } else { r.range(1, 20) } as u64;
    let seams: &[Seam] = match op {
        Op::Bdb { .. } | Op::CalDay { .. } => &[Seam::Cal],
        Op::Roll { .. } => &[Seam::Cal, Seam::Cal, Seam::Period],
        Op::Dcf { .. } => &[Seam::Cast],
        Op::Build { .. } => &[Seam::Fit, Seam::DayCount, Seam::Cast, Seam::Value],
        _ => &[Seam::Value, Seam::Value, Seam::DayCount, Seam::Cast],
    };
    let seam = *r.pick(seams);
    if let (Seam::Cal, Op::Bdb { cal, .. } | Op::CalDay { cal, .. } | Op::Roll { cal, .. }) = (seam, op) {
        // a calendar that is asked twice about each day, and never says the same, has no open day
        let m: Vec<usize> = match cal {
            CalRef::J2(a, b) => vec![*a, *b],
            CalRef::J3(a, b, c) => vec![*a, *b, *c],
            CalRef::J4(a, b, c, d) => vec![*a, *b, *c, *d],
            _ => vec![],
        };
        if (1..m.len()).any(|i| m[..i].contains(&m[i])) {
            return v;
        }
    }
    let act = match seam {
        Seam::Cal => Act::ChurnFrom(0),
        Seam::Value | Seam::DayCount if r.chance(1, 2) => Act::ChurnFrom(r.range(0, 1)),
        _ => Act::FailFrom(r.range(0, 3)),
    };
    v.push(Item { seam, k, act });
    v
}
/// C19: one failure, or one that stays, somewhere in the call
fn stop_p(r: &mut Rng, u: &Uni, op: &Op) -> Vec<Item> {
    let (seams, span): (&[Seam], i64) = match op {
        Op::Bdb { a, b, .. } => (&[Seam::Cal], (b - a).abs() + 1),
        Op::CalDay { .. } => (&[Seam::Cal], 8),
        Op::Roll { .. } => (&[Seam::Cal, Seam::Cal, Seam::Period], 8),
        Op::Dcf { .. } => (&[Seam::Cast], 3),
        Op::Build { s, .. } => match &u.specs[*s] {
            Spec::Curve { mats, .. } => (&[Seam::DayCount, Seam::DayCount, Seam::Cast, Seam::Fit], mats.len() as i64),
            Spec::Bond { first, pen, .. } => (&[Seam::Cast], 2 + ((pen - first) / 182).max(0)),
            Spec::Interp { .. } => (&[Seam::Fit], 1),
        },
        Op::Pv { b, .. } => match &u.specs[*b] {
            Spec::Bond { first, pen, .. } => (&[Seam::Value, Seam::Value, Seam::DayCount, Seam::Cast], 2 * ((pen - first) / 182 + 2)),
            _ => (&[Seam::Value], 1),
        },
        _ => (&[Seam::Value, Seam::DayCount, Seam::Cast], 3),
    };
    let mut v = vec![];
    for _ in 0..*r.pick(&[1, 1, 1, 2]) {
        let seam = *r.pick(seams);
        let n = match seam {
            Seam::Fit | Seam::Period => 1,
            Seam::Cast => 2 * span,
            _ => span,
        };
        let k = if r.chance(1, 3) { r.range(1, 3) } else { r.range(1, n.max(1)) } as u64;
        let act = match r.below(5) {
            _ if seam == Seam::Cal => Act::Panic,
            0 => Act::Panic,
            1 | 2 => Act::FailFrom(r.range(0, 3)),
            _ => Act::Fail(r.range(0, 3)),
        };
        v.push(Item { seam, k, act });
    }
    v
}
pub fn gen_run_p(prop: &str, u: &Uni, useed: u64, seed: u64) -> Run {
    if prop == "C19" {
        let mut run = gen_run_p(sub19(useed), u, useed, seed);
        run.prop = prop.into();
        let mut r = Rng::new(derive(seed, 19, 19));
        for s in run.tasks.iter_mut().flatten() {
            if !is_env(&u.ops[s.op]) && r.chance(7, 10) {
                s.script = stop_p(&mut r, u, &u.ops[s.op]);
            }
        }
        return run;
    }
    if prop == "C15" {
        let mut run = gen_run_p(sub15(useed), u, useed, seed);
        run.prop = prop.into();
        return run;
    }
    if prop == "C13" {
        let mut run = gen_run_p(sub13(useed), u, useed, seed);
        run.prop = prop.into();
        let mut r = Rng::new(derive(seed, 13, 13));
        for s in run.tasks.iter_mut().flatten() {
            if !is_env(&u.ops[s.op]) && r.chance(6, 10) {
                s.script = lasting_p(&mut r, &u.ops[s.op]);
            }
        }
        return run;
    }
    let mut r = Rng::new(seed);
    let mut run = Run { prop: prop.into(), useed, seed, prebuild: vec![], tasks: vec![], nested: vec![], policy: Policy::Seq, plan: vec![] };
    let calls: Vec<usize> = (0..u.ops.len()).filter(|&i| !is_env(&u.ops[i])).collect();
    let envs: Vec<usize> = (0..u.ops.len()).filter(|&i| is_env(&u.ops[i])).collect();
    if calls.is_empty() {
        return run;
    }
    let concurrent = prop != "C10" && prop != "C08" && r.chance(1, 2) || prop == "C08" && r.chance(1, 5);
    let nt = if concurrent { *r.pick(&[2, 2, 3]) } else { 1 };
    for _ in 0..nt {
        let mut t = vec![];
        for _ in 0..*r.pick(&[2, 4, 6, 10]) {
            if prop == "C10" {
                // an outage, the roll during it, its end, and the same roll again
                let op = calls[r.idx(calls.len())];
                if r.chance(1, 3) && !envs.is_empty() {
                    let c = r.idx(4);
                    t.push(Step { op: envs[2 * c], ..Default::default() });
                    if outage_ok(&u.ops[op], u, c) {
                        t.push(Step { op, ..Default::default() });
                    }
                    t.push(Step { op: envs[2 * c + 1], ..Default::default() });
                }
                t.push(Step { op, ..Default::default() });
                continue;
            }
            if !envs.is_empty() && r.chance(1, 5) {
                t.push(Step { op: envs[r.idx(envs.len())], ..Default::default() });
            }
            let op = calls[r.idx(calls.len())];
            let mut s = Step { op, ..Default::default() };
            if r.chance(6, 10) {
                s.script = faults_p(prop, &mut r, u, &u.ops[op]);
            }
            let again = !s.script.is_empty() && r.chance(2, 3);
            t.push(s);
            if again {
                // the failure is gone: the same call again
                t.push(Step { op, ..Default::default() });
            }
        }
        run.tasks.push(t);
    }
    if concurrent && !envs.is_empty() {
        let n = r.range(2, 8);
        run.tasks.push((0..n).map(|_| Step { op: envs[r.idx(envs.len())], ..Default::default() }).collect());
    }
    number(&mut run.tasks, &mut run.nested, &mut r);
    run.prebuild = all_needs(u, &run.tasks, &run.nested);
    if run.tasks.len() > 1 && concurrent {
        run.policy = match r.below(3) {
            0 => Policy::Random { seed: r.next(), mean: *r.pick(&[100, 400, 2000]), seam_pct: *r.pick(&[10, 30, 60]), hot_pct: 0 },
            1 => Policy::Random { seed: r.next(), mean: 0, seam_pct: *r.pick(&[15, 40, 80]), hot_pct: 0 },
            _ => Policy::Random { seed: r.next(), mean: *r.pick(&[1000, 4000]), seam_pct: 20, hot_pct: 20 },
        };
    }
    run
}
/// rolls over a closed calendar walk to the end of the date range: only near it
fn outage_ok(o: &Op, u: &Uni, c: usize) -> bool {
    let _ = (u, c);
    match o {
        Op::Roll { day, per, conv, .. } => {
            if *conv == 0 {
                return true;
            }
            let Some(s) = per.model(*day) else { return true };
            let up = model::max_day() - s < 3000;
            let down = s - model::min_day() < 3000;
            match conv {
                1 | 2 => up,
                _ => down,
            }
        }
        _ => true,
    }
}
