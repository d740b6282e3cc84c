//! Minimisation of a failing run: fewer calls, faults and preemptions that still give a violation of the same kind.
use crate::engine::{execute, Base, Report, Run, Viol};
use crate::rt::{self, Policy};
use crate::uni::Uni;

pub struct Mini<'a> {
    bases: &'a Vec<Option<Base>>,
    class: String,
    pub tries: u32,
    t0: i64,
    budget: i64,
}
impl Mini<'_> {
    fn test(&mut self, r: &Run) -> Option<Report> {
        if self.tries > 600 || rt::raw_now() - self.t0 > self.budget {
            return None;
        }
        self.tries += 1;
        let rep = execute(r, self.bases, false, false);
        if rep.harness.is_none() && rep.viol.as_ref().is_some_and(|v| v.class == self.class) {
            Some(rep)
        } else {
            None
        }
    }
}
fn places(r: &Run) -> Vec<(usize, usize)> {
    let mut v: Vec<(u32, usize, usize)> = vec![];
    for (t, x) in r.tasks.iter().enumerate() {
        for (i, s) in x.iter().enumerate() {
            v.push((s.seq, t, i));
        }
    }
    v.sort_unstable();
    v.into_iter().map(|x| (x.1, x.2)).collect()
}
fn without(r: &Run, drop: &[(usize, usize)]) -> Run {
    let mut n = r.clone();
    for (t, x) in n.tasks.iter_mut().enumerate() {
        let mut i = 0;
        x.retain(|_| {
            let gone = drop.contains(&(t, i));
            i += 1;
            !gone
        });
    }
    n
}
pub fn minimise(run: &Run, first: &Report, bases: &Vec<Option<Base>>, u: &Uni, budget_s: i64) -> (Run, Viol, u32) {
    let v0 = first.viol.clone().unwrap();
    let mut m = Mini { bases, class: v0.class.clone(), tries: 0, t0: rt::raw_now(), budget: budget_s * 1_000_000_000 };
    let mut best = run.clone();
    let mut viol = v0;
    // calls after the violation do not matter; in a sequential history that is visible directly
    if matches!(best.policy, Policy::Random { .. }) && !first.truncated {
        let mut c = best.clone();
        c.policy = Policy::Explicit;
        c.plan = first.plan.clone();
        if let Some(rep) = m.test(&c) {
            best = c;
            viol = rep.viol.unwrap();
        }
    }
    if matches!(best.policy, Policy::Seq) && viol.uid < u32::MAX - 10 {
        let at = best.tasks.iter().flatten().find(|s| s.uid == viol.uid).map(|s| s.seq);
        if let Some(at) = at {
            let mut c = best.clone();
            for t in &mut c.tasks {
                t.retain(|s| s.seq <= at);
            }
            if let Some(rep) = m.test(&c) {
                best = c;
                viol = rep.viol.unwrap();
            }
        }
    }
    for round in 0..3 {
        let before = (places(&best).len(), best.plan.len(), best.prebuild.len());
        // calls
        let mut chunk = places(&best).len().div_ceil(2).max(1);
        loop {
            let mut at = 0;
            loop {
                let ps = places(&best);
                if at >= ps.len() {
                    break;
                }
                let end = (at + chunk).min(ps.len());
                let c = without(&best, &ps[at..end]);
                if c.tasks.iter().all(Vec::is_empty) {
                    at = end;
                    continue;
                }
                if let Some(rep) = m.test(&c) {
                    best = c;
                    viol = rep.viol.unwrap();
                } else {
                    at = end;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // faults and everything attached to calls
        for t in 0..best.tasks.len() {
            for i in 0..best.tasks[t].len() {
                let mut k = 0;
                while k < best.tasks[t][i].script.len() {
                    let mut c = best.clone();
                    c.tasks[t][i].script.remove(k);
                    if let Some(rep) = m.test(&c) {
                        best = c;
                        viol = rep.viol.unwrap();
                    } else {
                        k += 1;
                    }
                }
                let s = best.tasks[t][i].clone();
                if !s.drops.is_empty() || s.amb.is_some() || s.junk != 0 {
                    let mut c = best.clone();
                    c.tasks[t][i].drops.clear();
                    c.tasks[t][i].amb = None;
                    c.tasks[t][i].junk = 0;
                    if let Some(rep) = m.test(&c) {
                        best = c;
                        viol = rep.viol.unwrap();
                    }
                }
            }
        }
        for i in 0..best.nested.len() {
            while !best.nested[i].script.is_empty() {
                let mut c = best.clone();
                c.nested[i].script.pop();
                let Some(rep) = m.test(&c) else { break };
                best = c;
                viol = rep.viol.unwrap();
            }
        }
        // preemptions
        if matches!(best.policy, Policy::Explicit) {
            let mut chunk = best.plan.len().div_ceil(2).max(1);
            while !best.plan.is_empty() {
                let mut at = 0;
                while at < best.plan.len() {
                    let mut c = best.clone();
                    let end = (at + chunk).min(c.plan.len());
                    c.plan.drain(at..end);
                    if let Some(rep) = m.test(&c) {
                        best = c;
                        viol = rep.viol.unwrap();
                    } else {
                        at = end;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
        // objects built in advance
        if !best.prebuild.is_empty() {
            let mut need: Vec<usize> = vec![];
            for s in best.tasks.iter().flatten().chain(&best.nested) {
                need.extend(u.needs(s.op));
            }
            let mut c = best.clone();
            c.prebuild.retain(|p| need.contains(p));
            // keep the numbering of tasks: never drop the set-up phase altogether
            if c.prebuild.is_empty() {
                c.prebuild = vec![best.prebuild[0]];
            }
            if c.prebuild.len() < best.prebuild.len() {
                if let Some(rep) = m.test(&c) {
                    best = c;
                    viol = rep.viol.unwrap();
                }
            }
        }
        if round > 0 && before == (places(&best).len(), best.plan.len(), best.prebuild.len()) {
            break;
        }
    }
    (best, viol, m.tries)
}
