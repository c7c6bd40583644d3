//! A plan is one simulated run, written out in full: the values, the calls of every caller, every
//! fault, and the schedule.  It is what a replay file holds.
use crate::json::{obj, J};
use mzops::{op_index, ty_name, ty_of, Act, ObjSpec, OpDef, Step, Trig, STEP0};
use mzrt::{EnvCfg, Strategy, ENV0};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// callers making calls under the scheduler
    Calls,
    /// callers that exist one after the other, each thread ending before the next begins
    Waves,
    /// callers that copy, change and query objects of their own
    Lineage,
    /// boxes merged across a simulated network
    Net,
    /// memory over repetition
    Leak,
    /// a long history
    Soak,
}
const KINDS: [(Kind, &str); 6] =
    [(Kind::Calls, "calls"), (Kind::Waves, "waves"), (Kind::Lineage, "lineage"), (Kind::Net, "net"), (Kind::Leak, "leak"), (Kind::Soak, "soak")];

/// one step of a lineage program: k=0 slot d becomes a clone of slot (or shared object, from 1000
/// on) a; k=1 slot d is changed in place; k=2 a query; k=4 slot d is built anew from the numbers of shared
/// object a; k=3 many objects like a come into being and are
/// changed
#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub k: u8,
    pub d: u16,
    pub step: Step,
}
/// network events
pub const E_CONTRIBUTE: u8 = 0;
pub const E_SEND: u8 = 1;
pub const E_DELIVER: u8 = 2;
pub const E_DUP: u8 = 3;
pub const E_DROP: u8 = 4;
pub const E_CRASH: u8 = 5;
pub const E_SAVE: u8 = 6;
pub const E_FAIL: u8 = 7;
pub const E_BATCH: u8 = 8;
pub const E_PART: u8 = 9;
pub const E_HEAL: u8 = 10;
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub k: u8,
    pub a: u16,
    pub b: u16,
    pub c: u32,
    pub list: Vec<u16>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub kind: Kind,
    pub objs: Vec<ObjSpec>,
    /// every caller builds the objects it uses itself
    pub private: bool,
    pub tasks: Vec<Vec<Step>>,
    pub progs: Vec<Vec<L>>,
    pub strat: Strategy,
    pub sched_seed: u64,
    pub stalls: Vec<(u8, u64)>,
    pub env: EnvCfg,
    pub nodes: u32,
    pub evs: Vec<Ev>,
    pub reps: u32,
    /// the arguments change from one repetition to the next
    pub vary: bool,
    /// the first half of the history knows only some of the calls
    pub habit: bool,
    pub canary: bool,
}
impl Plan {
    pub fn new(prop: &str, seed: u64, kind: Kind) -> Plan {
        Plan {
            prop: prop.into(),
            seed,
            kind,
            objs: vec![],
            private: false,
            tasks: vec![],
            progs: vec![],
            strat: Strategy::Serial { p_op: 0 },
            sched_seed: seed,
            stalls: vec![],
            env: ENV0,
            nodes: 0,
            evs: vec![],
            reps: 0,
            vary: false,
            habit: false,
            canary: false,
        }
    }
    /// number every step
    pub fn number(&mut self) -> u16 {
        fn go(s: &mut Step, n: &mut u16) {
            s.uid = *n;
            *n += 1;
            for t in &mut s.trig {
                if let Some(v) = t.act.inner_mut() {
                    for x in v {
                        go(x, n)
                    }
                }
            }
        }
        let mut n = 0;
        for t in &mut self.tasks {
            for s in t {
                go(s, &mut n)
            }
        }
        for t in &mut self.progs {
            for l in t {
                go(&mut l.step, &mut n)
            }
        }
        n
    }
    pub fn each_step<'a>(&'a self, mut f: impl FnMut(usize, &'a Step)) {
        fn go<'a>(t: usize, s: &'a Step, f: &mut impl FnMut(usize, &'a Step)) {
            f(t, s);
            for x in &s.trig {
                if let Some(v) = x.act.inner() {
                    for y in v {
                        go(t, y, f)
                    }
                }
            }
        }
        for (t, v) in self.tasks.iter().enumerate() {
            for s in v {
                go(t, s, &mut f)
            }
        }
    }
}
fn fl(v: &[f64]) -> J {
    J::Arr(v.iter().map(|&x| x.into()).collect())
}
fn u16s(v: &[u16]) -> J {
    J::Arr(v.iter().map(|&x| (x as u64).into()).collect())
}
fn step_j(s: &Step, defs: &[OpDef]) -> J {
    let mut v = vec![
        ("call", defs[s.op as usize].name.as_str().into()),
        ("a", (s.a as u64).into()),
        ("b", (s.b as u64).into()),
    ];
    if s.s != 0.0 {
        v.push(("s", s.s.into()));
    }
    if s.i != 0 {
        v.push(("i", s.i.into()));
    }
    if s.part != 0 {
        v.push(("participants", (s.part as u64).into()));
    }
    if s.warp != 1.0 {
        v.push(("own_units", s.warp.into()));
    }
    if !s.vers.is_empty() {
        v.push(("versions", u16s(&s.vers)));
    }
    if !s.list.is_empty() {
        v.push(("members", u16s(&s.list)));
    }
    if s.fail != STEP0.fail {
        v.push(("allocations_fail", J::Arr(vec![s.fail.0.into(), s.fail.1.into()])));
    }
    if !s.trig.is_empty() {
        v.push((
            "at_callback",
            J::Arr(
                s.trig
                    .iter()
                    .map(|t| {
                        let mut o = vec![("n", t.at.into())];
                        let (n, x) = match &t.act {
                            Act::Panic => ("panic", J::Null),
                            Act::Nest(v) => ("nested", J::Arr(v.iter().map(|s| step_j(s, defs)).collect())),
                            Act::Unwind(v) => ("panic_with_destructor", J::Arr(v.iter().map(|s| step_j(s, defs)).collect())),
                            Act::Hook(v) => ("in_panic_hook", J::Arr(v.iter().map(|s| step_j(s, defs)).collect())),
                            Act::Yield => ("yield", J::Null),
                            Act::Stall => ("stall", J::Null),
                            Act::Move => ("move", J::Null),
                            Act::BadKind => ("unsupported_kind", J::Null),
                            Act::Short(n) => ("cut_short", (*n as u64).into()),
                            Act::NoSupport => ("no_support", J::Null),
                            Act::Jitter(j) => ("jitter", fl(j)),
                            Act::Stale => ("stale_support", J::Null),
                        };
                        o.push(("do", n.into()));
                        if x != J::Null {
                            o.push(("with", x));
                        }
                        obj(o)
                    })
                    .collect(),
            ),
        ));
    }
    obj(v)
}
fn step_from(j: &J, defs: &[OpDef]) -> Option<Step> {
    let mut s = STEP0.clone();
    s.op = op_index(defs, j.get("call").s())?;
    s.a = j.get("a").u() as u16;
    s.b = j.get("b").u() as u16;
    if *j.get("s") != J::Null {
        s.s = j.get("s").f();
    }
    s.i = j.get("i").u() as u32;
    if *j.get("own_units") != J::Null {
        s.warp = j.get("own_units").f();
    }
    s.part = j.get("participants").u() as u8;
    s.vers = j.get("versions").arr().iter().map(|x| x.u() as u16).collect();
    s.list = j.get("members").arr().iter().map(|x| x.u() as u16).collect();
    let f = j.get("allocations_fail").arr();
    if f.len() == 2 {
        s.fail = (f[0].u() as u32, f[1].u() as u32);
    }
    for t in j.get("at_callback").arr() {
        let w = t.get("with");
        let act = match t.get("do").s() {
            "panic" => Act::Panic,
            "nested" => Act::Nest(w.arr().iter().map(|x| step_from(x, defs)).collect::<Option<Vec<_>>>()?),
            "panic_with_destructor" => Act::Unwind(w.arr().iter().map(|x| step_from(x, defs)).collect::<Option<Vec<_>>>()?),
            "in_panic_hook" => Act::Hook(w.arr().iter().map(|x| step_from(x, defs)).collect::<Option<Vec<_>>>()?),
            "yield" => Act::Yield,
            "stall" => Act::Stall,
            "move" => Act::Move,
            "unsupported_kind" => Act::BadKind,
            "cut_short" => Act::Short(w.u() as u32),
            "no_support" => Act::NoSupport,
            "jitter" => Act::Jitter([w.arr().first()?.f(), w.arr().get(1)?.f(), w.arr().get(2)?.f()]),
            "stale_support" => Act::Stale,
            _ => return None,
        };
        s.trig.push(Trig { at: t.get("n").u() as u32, act });
    }
    Some(s)
}
pub fn strat_j(s: &Strategy) -> J {
    match s {
        Strategy::Serial { p_op } => obj(vec![("kind", "serial".into()), ("p_op", (*p_op).into())]),
        Strategy::Rand { p_static, p_heap, p_edge, p_op, slow } => obj(vec![
            ("kind", "random".into()),
            ("p_static", (*p_static).into()),
            ("p_heap", (*p_heap).into()),
            ("p_edge", (*p_edge).into()),
            ("p_op", (*p_op).into()),
            ("slow", (*slow).into()),
        ]),
        Strategy::Pct { changes, p_static } => {
            obj(vec![("kind", "priorities".into()), ("changes", changes.clone().into()), ("p_static", (*p_static).into())])
        }
        Strategy::Explicit { vol, forced } => obj(vec![
            ("kind", "explicit".into()),
            ("switch_at_point_to_thread", J::Arr(vol.iter().map(|v| J::Arr(vec![v.0.into(), (v.1 as u64).into()])).collect())),
            ("next_when_one_cannot_go_on", J::Arr(forced.iter().map(|&v| (v as u64).into()).collect())),
        ]),
    }
}
fn strat_from(j: &J) -> Strategy {
    match j.get("kind").s() {
        "random" => Strategy::Rand {
            p_static: j.get("p_static").u() as u32,
            p_heap: j.get("p_heap").u() as u32,
            p_edge: j.get("p_edge").u() as u32,
            p_op: j.get("p_op").u() as u32,
            slow: j.get("slow").u() as u32,
        },
        "priorities" => Strategy::Pct { changes: j.get("changes").arr().iter().map(|x| x.u()).collect(), p_static: j.get("p_static").u() as u32 },
        "explicit" => Strategy::Explicit {
            vol: j
                .get("switch_at_point_to_thread")
                .arr()
                .iter()
                .map(|x| (x.arr().first().map_or(0, |y| y.u()), x.arr().get(1).map_or(0, |y| y.u()) as u8))
                .collect(),
            forced: j.get("next_when_one_cannot_go_on").arr().iter().map(|x| x.u() as u8).collect(),
        },
        _ => Strategy::Serial { p_op: j.get("p_op").u() as u32 },
    }
}
pub fn to_json(p: &Plan, defs: &[OpDef]) -> J {
    let mut v: Vec<(&str, J)> = vec![
        ("property", p.prop.as_str().into()),
        ("seed", p.seed.into()),
        ("kind", KINDS.iter().find(|k| k.0 == p.kind).unwrap().1.into()),
        (
            "objects",
            J::Arr(
                p.objs
                    .iter()
                    .map(|o| {
                        let mut x = vec![("type", ty_name(o.ty).into()), ("v", fl(&o.v))];
                        if o.rm {
                            x.push(("row_major", true.into()));
                        }
                        if let Some(e) = o.vic {
                            x.push(("tolerance", e.into()));
                        }
                        obj(x)
                    })
                    .collect(),
            ),
        ),
        ("private", p.private.into()),
        ("threads", J::Arr(p.tasks.iter().map(|t| J::Arr(t.iter().map(|s| step_j(s, defs)).collect())).collect())),
        (
            "programs",
            J::Arr(
                p.progs
                    .iter()
                    .map(|t| {
                        J::Arr(
                            t.iter()
                                .map(|l| obj(vec![("k", (l.k as u64).into()), ("d", (l.d as u64).into()), ("step", step_j(&l.step, defs))]))
                                .collect(),
                        )
                    })
                    .collect(),
            ),
        ),
        ("schedule", strat_j(&p.strat)),
        ("schedule_seed", p.sched_seed.into()),
        ("stalls", J::Arr(p.stalls.iter().map(|s| J::Arr(vec![(s.0 as u64).into(), s.1.into()])).collect())),
        ("nodes", p.nodes.into()),
        (
            "events",
            J::Arr(
                p.evs
                    .iter()
                    .map(|e| {
                        let mut l = vec![J::from(e.k as u64), (e.a as u64).into(), (e.b as u64).into(), e.c.into()];
                        l.extend(e.list.iter().map(|&x| J::from(x as u64)));
                        J::Arr(l)
                    })
                    .collect(),
            ),
        ),
        ("reps", p.reps.into()),
        ("arguments_vary", p.vary.into()),
        ("habit", p.habit.into()),
        ("canary", p.canary.into()),
    ];
    if p.env.on {
        v.push((
            "environment",
            obj(vec![
                ("clock_base", p.env.clock_base.into()),
                ("clock_mode", p.env.clock_mode.into()),
                ("entropy", p.env.entropy.into()),
                ("entropy_mode", p.env.entropy_mode.into()),
                ("env_mode", p.env.env_mode.into()),
                ("io_mode", p.env.io_mode.into()),
                ("file_mode", p.env.file_mode.into()),
                ("heap_off", p.env.heap_off.into()),
            ]),
        ));
    }
    obj(v)
}
pub fn from_json(j: &J, defs: &[OpDef]) -> Option<Plan> {
    let mut p = Plan::new(j.get("property").s(), j.get("seed").u(), KINDS.iter().find(|k| k.1 == j.get("kind").s())?.0);
    for o in j.get("objects").arr() {
        p.objs.push(ObjSpec {
            ty: ty_of(o.get("type").s()),
            rm: o.get("row_major").b(),
            v: o.get("v").arr().iter().map(|x| x.f()).collect(),
            vic: if *o.get("tolerance") == J::Null { None } else { Some(o.get("tolerance").f()) },
        });
    }
    p.private = j.get("private").b();
    for t in j.get("threads").arr() {
        p.tasks.push(t.arr().iter().map(|s| step_from(s, defs)).collect::<Option<Vec<_>>>()?);
    }
    for t in j.get("programs").arr() {
        let mut v = vec![];
        for l in t.arr() {
            v.push(L { k: l.get("k").u() as u8, d: l.get("d").u() as u16, step: step_from(l.get("step"), defs)? });
        }
        p.progs.push(v);
    }
    p.strat = strat_from(j.get("schedule"));
    p.sched_seed = j.get("schedule_seed").u();
    p.stalls = j.get("stalls").arr().iter().map(|x| (x.arr()[0].u() as u8, x.arr()[1].u())).collect();
    p.nodes = j.get("nodes").u() as u32;
    for e in j.get("events").arr() {
        let a = e.arr();
        if a.len() < 4 {
            return None;
        }
        p.evs.push(Ev { k: a[0].u() as u8, a: a[1].u() as u16, b: a[2].u() as u16, c: a[3].u() as u32, list: a[4..].iter().map(|x| x.u() as u16).collect() });
    }
    p.reps = j.get("reps").u() as u32;
    p.vary = j.get("arguments_vary").b();
    p.habit = j.get("habit").b();
    p.canary = j.get("canary").b();
    let e = j.get("environment");
    if *e != J::Null {
        p.env = EnvCfg {
            on: true,
            clock_base: e.get("clock_base").u(),
            clock_mode: e.get("clock_mode").u() as u32,
            entropy: e.get("entropy").u(),
            entropy_mode: e.get("entropy_mode").u() as u32,
            env_mode: e.get("env_mode").u() as u32,
            io_mode: e.get("io_mode").u() as u32,
            file_mode: e.get("file_mode").u() as u32,
            heap_off: e.get("heap_off").u() as u32,
        };
    }
    p.number();
    Some(p)
}
