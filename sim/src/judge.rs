//! Did the run keep the property?
use crate::exec::*;
use crate::plan::*;
use mzops::*;
use mzrt::{fault, verdict, Exit, Outcome};
use std::rc::Rc;

pub enum Judgement {
    Ok,
    Violation(String),
    /// the run cannot be judged (its reference runs do not finish)
    Skip,
    Harness(String),
}
fn word(w: u64) -> String {
    let f = f64::from_bits(w);
    if w < 64 {
        format!("{}", w)
    } else if w >> 32 == 0 {
        let g = f32::from_bits(w as u32);
        if g.is_finite() && g.abs() > 1e-30 || w == 0 {
            format!("{:?}", g)
        } else {
            format!("{:#x}", w)
        }
    } else {
        format!("{:?}", f)
    }
}
pub fn text(o: &Outcome) -> String {
    if o.status != S_VALUE {
        return status_name(o.status).into();
    }
    let v: Vec<String> = o.words().iter().take(12).map(|&w| word(w)).collect();
    format!("[{}{}]", v.join(" "), if o.n > 12 { " .." } else { "" })
}
pub fn differ(o: &Outcome, e: &Outcome) -> String {
    // show the first difference if both are values
    if o.status == S_VALUE && e.status == S_VALUE && o.n == e.n {
        if let Some(i) = (0..o.words().len()).find(|&i| o.words()[i] != e.words()[i]) {
            return format!("answered {} (number {} of the answer: {}) but as the only call it answers {} ({})", text(o), i, word(o.w[i]), text(e), word(e.w[i]));
        }
    }
    format!("answered {} but as the only call it answers {}", text(o), text(e))
}
impl Sim {
    fn name(&self, s: &Step) -> &str {
        &self.defs[s.op as usize].name
    }
    /// limits on the steps of every top-level call, and whether everything can be judged
    pub fn prepare(&mut self, p: &Plan) -> (Vec<u64>, Vec<Option<Outcome>>, bool) {
        let mut limits = vec![u64::MAX / 2; mzrt::MAXOUT];
        if p.prop == "C12" {
            // undisturbed queries are rare here, their references are made when needed
            return (vec![20_000_000; mzrt::MAXOUT], vec![], true);
        }
        let n = (p.clone().number() as usize).clamp(64, mzrt::MAXOUT);
        let mut expect: Vec<Option<Outcome>> = vec![None; n];
        let mut ok = true;
        let (f, c) = if p.prop == "C04" { (4, 20_000) } else { (40, 2_000_000) };
        for t in &p.tasks {
            for s in t {
                let mut sum = 0;
                let mut stack = vec![s];
                while let Some(x) = stack.pop() {
                    let b = self.solo(x, &p.objs);
                    if b.bad {
                        ok = false;
                    }
                    sum += b.out.steps;
                    if let Some(e) = expect.get_mut(x.uid as usize) {
                        *e = Some(b.out);
                    }
                    for g in &x.trig {
                        if let Act::Hook(v) = &g.act {
                            // a failure inside a panic hook ends the process
                            ok &= v.iter().all(|y| y.trig.is_empty() && self.solo(y, &p.objs).out.status == S_VALUE);
                        }
                        if let Some(v) = g.act.inner() {
                            stack.extend(v.iter());
                        }
                    }
                }
                if let Some(l) = limits.get_mut(s.uid as usize) {
                    *l = sum * f + c;
                }
            }
        }
        if p.kind == Kind::Soak {
            for t in &p.tasks {
                for s in t {
                    if !s.trig.is_empty() || s.fail != STEP0.fail {
                        expect[s.uid as usize] = None;
                    }
                }
            }
        }
        (limits, expect, ok)
    }
    /// run the plan and judge it
    pub fn evaluate(&mut self, p: &Plan) -> (Judgement, Option<Res>) {
        let (limits, expect, ok) = self.prepare(p);
        if !ok {
            return (Judgement::Skip, None);
        }
        let mut r = self.run(p, &limits, &expect);
        if r.exit == Exit::Signal(14) {
            // give a slow machine the benefit of the doubt
            let s = std::mem::replace(&mut self.secs, 90);
            r = self.run(p, &limits, &expect);
            self.secs = s;
        }
        (self.judge(p, &r), Some(r))
    }
    pub fn judge(&mut self, p: &Plan, r: &Res) -> Judgement {
        let mut partial = false;
        match r.exit {
            Exit::Code(0) => {}
            Exit::Code(c) => return Judgement::Harness(format!("run exited with {}", c)),
            Exit::Signal(9) => return Judgement::Harness("run was killed".into()),
            Exit::Signal(14) => return Judgement::Violation("the run never finished: a call hangs".into()),
            Exit::Signal(6) if r.faults[fault::OOM] > 0 => partial = true,
            Exit::Signal(s) => return Judgement::Violation(format!("the process died of signal {} during the calls", s)),
        }
        match r.verdict {
            verdict::NONE => {}
            verdict::CUSTOM => return Judgement::Violation(r.msg.clone()),
            verdict::HARNESS => return Judgement::Harness(r.msg.clone()),
            _ => return Judgement::Violation(r.msg.clone()),
        }
        if !partial && !r.finished {
            return Judgement::Harness("run ended without a result".into());
        }
        match p.kind {
            Kind::Net | Kind::Leak | Kind::Soak => Judgement::Ok,
            Kind::Calls | Kind::Waves => {
                let mut steps: Vec<(usize, Step)> = vec![];
                p.each_step(|t, s| steps.push((t, s.clone())));
                for (t, s) in steps {
                    let Some(o) = r.outs.get(s.uid as usize).copied() else { continue };
                    if o.status == S_NONE {
                        continue;
                    }
                    if let Some(m) = self.judge_step(p, &s, &o) {
                        return Judgement::Violation(format!("thread {} call {} {}: {}", t, s.uid, self.name(&s), m));
                    }
                }
                Judgement::Ok
            }
            Kind::Lineage => self.judge_lineage(p, r),
        }
    }
    fn judge_step(&mut self, p: &Plan, s: &Step, o: &Outcome) -> Option<String> {
        if o.fl & mzrt::FL_RECV != 0 && (p.prop == "C06" || p.prop == "C07") {
            return Some(format!("the call was abandoned ({}) but changed its receiver", status_name(o.status)));
        }
        if o.fl & mzrt::FL_PANIC != 0 {
            return if o.status != S_INJECTED { Some(format!("a participant failed during the call, and the call {}", text_got(o))) } else { None };
        }
        if o.fl & mzrt::FL_BADKIND != 0 {
            return if o.status == S_VALUE {
                Some(format!("a bound of an unsupported kind took part, and the call answered {}", text(o)))
            } else {
                None
            };
        }
        if o.status == S_ENDLESS {
            return Some(format!("more than {} support requests of one participant since the last disturbance", SETTLE_LIMIT));
        }
        if o.fl & (mzrt::FL_NOSUPPORT | mzrt::FL_OOM) == mzrt::FL_NOSUPPORT {
            if o.status == S_VALUE && o.n == 1 && o.w[0] == 0x4e {
                return None;
            }
            return Some(format!("a participant had no support point, and the query {}", text_got(o)));
        }
        if o.fl & (mzrt::FL_DISTURBED | mzrt::FL_OOM) == mzrt::FL_DISTURBED {
            return if o.status == S_VALUE { None } else { Some(format!("the disturbed query {}", text_got(o))) };
        }
        let e = {
            let b = self.solo(s, &p.objs);
            if b.bad {
                return None;
            }
            b.out
        };
        if o.fl & mzrt::FL_SHORT != 0 {
            // an answer that did not need the rest is still the answer
            return if o.status != S_VALUE || o.same(&e) {
                None
            } else {
                Some(format!("a participant supplied too little geometry, and the call answered {} instead of failing", text(o)))
            };
        }
        if o.fl & mzrt::FL_BADSHAPE != 0 {
            // an answer that did not need the kind is still the answer
            return if o.status != S_VALUE || o.same(&e) {
                None
            } else {
                Some(format!("a shape of an unsupported kind took part, and the call answered {} instead of failing", text(o)))
            };
        }
        if o.fl & mzrt::FL_OOM != 0 {
            if o.status == S_OOM || o.status == S_PANIC || o.same(&e) {
                return None;
            }
            return Some(format!("{} when memory ran out", differ(o, &e)));
        }
        if o.moves > 0 {
            let mut seen = vec![];
            for f in self.snapshots(s, o.moves) {
                let mut x = s.clone();
                x.fixed = Some(f);
                let b = self.solo(&x, &p.objs);
                if b.bad || b.out.same(o) {
                    return None;
                }
                let t = text(&b.out);
                if !seen.contains(&t) {
                    seen.push(t);
                }
            }
            return Some(format!("answered {} while a participant was changing; the answers for single instants are {}", text(o), seen.join(" ")));
        }
        if o.same(&e) {
            None
        } else {
            Some(differ(o, &e))
        }
    }
    fn snapshots(&self, s: &Step, moves: u32) -> Vec<(u16, u16)> {
        let mut v = vec![];
        if s.list.is_empty() {
            let n = (s.vers.len() as u32 + 1).min(moves + 1) as u16;
            for b in 0..n {
                for g in 0..n {
                    v.push((b, g));
                }
            }
        } else {
            let n = s.list.len().min(s.vers.len()).min(8);
            for m in 0..(1u16 << n) {
                v.push((m, 0));
            }
        }
        v
    }
    fn judge_lineage(&mut self, p: &Plan, r: &Res) -> Judgement {
        let none = Rc::new(Lin::Spec(ObjSpec { ty: T_AABB, rm: false, v: vec![0.0; 6], vic: None }));
        for (t, prog) in p.progs.iter().enumerate() {
            let mut slots: Vec<Rc<Lin>> = vec![none.clone(); NSLOT];
            for l in prog {
                let d = l.d as usize % NSLOT;
                let get = |a: u16, slots: &Vec<Rc<Lin>>| -> Rc<Lin> {
                    if a >= SHARED {
                        Rc::new(Lin::Spec(p.objs[(a - SHARED) as usize % p.objs.len()].clone()))
                    } else if l.k == 1 && a as usize % NSLOT == d {
                        none.clone()
                    } else {
                        slots[a as usize % NSLOT].clone()
                    }
                };
                let (a, b) = (get(l.step.a, &slots), get(l.step.b, &slots));
                if l.k == 0 || l.k == 4 {
                    slots[d] = a;
                    continue;
                }
                if l.k == 3 {
                    continue;
                }
                let recv = if l.k == 1 { Some(slots[d].clone()) } else { None };
                let list: Vec<Rc<Lin>> = l.step.list.iter().map(|&x| get(x, &slots)).collect();
                let base = self.solo_lin(&l.step, recv.as_ref(), &a, &b, &list);
                let (bad, e) = (base.bad, base.out);
                if bad {
                    return Judgement::Skip;
                }
                if let Some(o) = r.outs.get(l.step.uid as usize) {
                    if o.status != S_NONE && !o.same(&e) {
                        let m = format!(
                            "thread {} step {} {}: {} on objects with the same history of their own",
                            t,
                            l.step.uid,
                            self.name(&l.step),
                            differ(o, &e)
                        );
                        return Judgement::Violation(m);
                    }
                }
                if l.k == 1 {
                    slots[d] = Rc::new(Lin::Mut(slots[d].clone(), l.step.clone(), a, b, list));
                }
            }
        }
        Judgement::Ok
    }
}
fn text_got(o: &Outcome) -> String {
    if o.status == S_VALUE {
        format!("answered {}", text(o))
    } else {
        format!("ended in {}", status_name(o.status))
    }
}
