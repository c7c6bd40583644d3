//! Making a failing run small, and its schedule explicit.
use crate::exec::*;
use crate::judge::Judgement;
use crate::plan::*;
use mzops::*;
use mzrt::{Rng, Strategy};
use std::time::{Duration, Instant};

fn fails(sim: &mut Sim, p: &Plan) -> Option<(String, Res)> {
    match sim.evaluate(p) {
        (Judgement::Violation(m), Some(r)) => Some((m, r)),
        _ => None,
    }
}
/// does it still fail, under the same schedule seed or a few others?
fn still(sim: &mut Sim, p: &Plan, tries: u32) -> Option<Plan> {
    let mut q = p.clone();
    q.number();
    if fails(sim, &q).is_some() {
        return Some(q);
    }
    let n = q.tasks.len().max(q.progs.len());
    if n < 2 || matches!(q.strat, Strategy::Explicit { .. }) {
        return None;
    }
    let mut r = Rng::new(p.sched_seed ^ 0x3117);
    for _ in 0..tries {
        q.sched_seed = r.next();
        if let Strategy::Pct { changes, .. } = &mut q.strat {
            let m = changes.last().copied().unwrap_or(10) + 10;
            for c in changes.iter_mut() {
                *c = 1 + r.below(m);
            }
            changes.sort();
        }
        if fails(sim, &q).is_some() {
            return Some(q);
        }
    }
    None
}
fn map_objs(p: &mut Plan, f: &dyn Fn(u16) -> u16) {
    fn go(s: &mut Step, f: &dyn Fn(u16) -> u16) {
        s.a = f(s.a);
        s.b = f(s.b);
        for x in s.list.iter_mut().chain(s.vers.iter_mut()) {
            *x = f(*x);
        }
        for t in &mut s.trig {
            if let Some(v) = t.act.inner_mut() {
                v.iter_mut().for_each(|x| go(x, f));
            }
        }
    }
    for t in &mut p.tasks {
        t.iter_mut().for_each(|s| go(s, f));
    }
    for t in &mut p.progs {
        for l in t {
            for x in [&mut l.step.a, &mut l.step.b].into_iter().chain(&mut l.step.list) {
                if *x >= SHARED {
                    *x = SHARED + f(*x - SHARED);
                }
            }
        }
    }
}
/// drop objects nobody refers to
fn compact(p: &Plan) -> Plan {
    let mut q = p.clone();
    if p.kind == Kind::Net {
        return q;
    }
    let n = p.objs.len();
    let used = std::cell::RefCell::new(vec![false; n]);
    map_objs(&mut q, &|i| {
        if (i as usize) < n {
            used.borrow_mut()[i as usize] = true;
        }
        i
    });
    let used = used.into_inner();
    if used.iter().all(|&u| u) || !used.iter().any(|&u| u) {
        return p.clone();
    }
    let mut to = vec![0u16; n];
    let mut k = 0;
    for i in 0..n {
        to[i] = k;
        if used[i] {
            k += 1;
        }
    }
    map_objs(&mut q, &|i| to.get(i as usize).copied().unwrap_or(0));
    q.objs = p.objs.iter().zip(&used).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    q
}
fn chunks(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut c = n / 2;
    while c >= 1 {
        let mut i = 0;
        while i < n {
            v.push((i, (i + c).min(n)));
            i += c;
        }
        c /= 2;
    }
    v
}
fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let n = p.tasks.len();
    if n > 1 {
        for t in 0..n {
            let mut q = p.clone();
            q.tasks.remove(t);
            q.stalls.retain(|s| s.0 as usize != t);
            for s in &mut q.stalls {
                if s.0 as usize > t {
                    s.0 -= 1;
                }
            }
            v.push(q);
        }
    }
    if p.progs.len() > 1 {
        for t in 0..p.progs.len() {
            let mut q = p.clone();
            q.progs.remove(t);
            v.push(q);
        }
    }
    for t in 0..n {
        for (a, b) in chunks(p.tasks[t].len()) {
            if b - a == p.tasks[t].len() {
                continue;
            }
            let mut q = p.clone();
            q.tasks[t].drain(a..b);
            v.push(q);
        }
    }
    for t in 0..p.progs.len() {
        for (a, b) in chunks(p.progs[t].len()) {
            if b - a == p.progs[t].len() {
                continue;
            }
            let mut q = p.clone();
            q.progs[t].drain(a..b);
            v.push(q);
        }
    }
    for (a, b) in chunks(p.evs.len()) {
        let mut q = p.clone();
        q.evs.drain(a..b);
        v.push(q);
    }
    if p.kind == Kind::Net {
        for (a, b) in chunks(p.objs.len()) {
            if b - a < p.objs.len() {
                let mut q = p.clone();
                q.objs.drain(a..b);
                v.push(q);
            }
        }
        if p.nodes > 1 {
            let mut q = p.clone();
            q.nodes -= 1;
            v.push(q);
        }
        for i in 0..p.evs.len() {
            for j in 0..p.evs[i].list.len() {
                let mut q = p.clone();
                q.evs[i].list.remove(j);
                v.push(q);
            }
        }
    }
    for i in 0..p.stalls.len() {
        let mut q = p.clone();
        q.stalls.remove(i);
        v.push(q);
    }
    for t in 0..n {
        for i in 0..p.tasks[t].len() {
            let s = &p.tasks[t][i];
            for (a, b) in chunks(s.trig.len()) {
                let mut q = p.clone();
                q.tasks[t][i].trig.drain(a..b);
                v.push(q);
            }
            if s.trig.len() == 1 {
                let mut q = p.clone();
                q.tasks[t][i].trig.clear();
                v.push(q);
            }
            if s.fail.0 < s.fail.1 {
                let mut q = p.clone();
                q.tasks[t][i].fail = STEP0.fail;
                v.push(q);
            }
            for (k, g) in s.trig.iter().enumerate() {
                if let Some(x) = g.act.inner() {
                    for j in 0..x.len() {
                        let mut q = p.clone();
                        if let Some(y) = q.tasks[t][i].trig[k].act.inner_mut() {
                            y.remove(j);
                        }
                        v.push(q);
                        if let Some(z) = x[j].trig.first().and_then(|t| t.act.inner()) {
                            // one level less
                            let mut q = p.clone();
                            if let Some(y) = q.tasks[t][i].trig[k].act.inner_mut() {
                                y.splice(j..j + 1, z.iter().cloned());
                            }
                            v.push(q);
                        }
                        if !x[j].trig.is_empty() {
                            let mut q = p.clone();
                            if let Some(y) = q.tasks[t][i].trig[k].act.inner_mut() {
                                y[j].trig.clear();
                            }
                            v.push(q);
                        }
                    }
                }
            }
            if s.warp != 1.0 {
                let mut q = p.clone();
                q.tasks[t][i].warp = 1.0;
                v.push(q);
            }
            for j in 0..s.list.len() {
                if s.list.len() > 1 {
                    let mut q = p.clone();
                    let y = &mut q.tasks[t][i];
                    y.list.remove(j);
                    if j < y.vers.len() {
                        y.vers.remove(j);
                    }
                    v.push(q);
                }
            }
        }
    }
    if p.private && p.kind != Kind::Leak {
        let mut q = p.clone();
        q.private = false;
        v.push(q);
    }
    if p.habit {
        let mut q = p.clone();
        q.habit = false;
        v.push(q);
    }
    if p.vary {
        let mut q = p.clone();
        q.vary = false;
        v.push(q);
    }
    if p.reps > 1 && p.kind == Kind::Soak {
        for r in [p.reps / 2, p.reps * 3 / 4, p.reps - 1] {
            let mut q = p.clone();
            q.reps = r;
            v.push(q);
        }
    }
    if p.env.on {
        let b = mzrt::ENV0;
        let mut e = |f: &dyn Fn(&mut mzrt::EnvCfg)| {
            let mut q = p.clone();
            f(&mut q.env);
            if q.env != p.env {
                v.push(q);
            }
        };
        e(&|x| x.clock_mode = b.clock_mode);
        e(&|x| x.clock_base = b.clock_base);
        e(&|x| x.entropy = b.entropy);
        e(&|x| x.entropy_mode = 0);
        e(&|x| x.env_mode = 0);
        e(&|x| x.io_mode = 0);
        e(&|x| x.file_mode = 0);
        e(&|x| x.heap_off = 0);
    }
    let c = compact(p);
    if c.objs.len() < p.objs.len() {
        v.push(c);
    }
    v
}
/// the smallest failing plan found, its complaint and its run
pub fn minimise(sim: &mut Sim, p: &Plan, budget: Duration) -> Option<(Plan, String, Res)> {
    let t0 = Instant::now();
    let mut best = p.clone();
    best.number();
    fails(sim, &best)?;
    loop {
        let mut better = None;
        for c in smaller(&best) {
            if t0.elapsed() > budget {
                break;
            }
            if let Some(q) = still(sim, &c, 4) {
                better = Some(q);
                break;
            }
        }
        match better {
            Some(q) => best = q,
            None => break,
        }
    }
    // the schedule, written out
    let (_, r) = fails(sim, &best)?;
    let n = best.tasks.len().max(best.progs.len());
    if n > 1 && matches!(best.kind, Kind::Calls | Kind::Lineage) && r.rec.len() < mzrt::MAXREC {
        let vol: Vec<(u64, u8)> = r.rec.iter().filter(|x| x.forced == 0).map(|x| (x.at, x.to)).collect();
        let forced: Vec<u8> = r.rec.iter().filter(|x| x.forced != 0).map(|x| x.to).collect();
        let mut q = best.clone();
        q.strat = Strategy::Explicit { vol: vol.clone(), forced: forced.clone() };
        if fails(sim, &q).is_some() {
            best = q;
            let mut cur = vol;
            let mut c = (cur.len() + 1) / 2;
            while c >= 1 && t0.elapsed() < budget * 2 {
                let mut i = 0;
                let mut cut = false;
                while i < cur.len() && t0.elapsed() < budget * 2 {
                    let mut d = cur.clone();
                    d.drain(i..(i + c).min(d.len()));
                    let mut q = best.clone();
                    q.strat = Strategy::Explicit { vol: d.clone(), forced: forced.clone() };
                    if fails(sim, &q).is_some() {
                        cur = d;
                        best = q;
                        cut = true;
                    } else {
                        i += c;
                    }
                }
                if c == 1 && !cut {
                    break;
                }
                if !cut || c > cur.len() {
                    c = (c / 2).max(if c > 1 { 1 } else { 0 });
                }
            }
        }
    }
    // a replay must be exact: the same complaint and the same digest twice over
    let (m1, r1) = fails(sim, &best)?;
    let (m2, r2) = fails(sim, &best)?;
    if m1 != m2 || r1.digest() != r2.digest() {
        return None;
    }
    Some((best, m1, r1))
}
