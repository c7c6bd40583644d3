//! Executing plans, each in a forked process of its own, and the reference answers: the same call
//! as the only call of a pristine process.
use crate::plan::*;
use mzops::*;
use mzrt::{rng::mix, shm, Exit, Outcome, Rec, SchedCfg, Share0, Shm, Strategy, ENV0, OUT0};
use std::collections::HashMap;
use std::rc::Rc;

static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// panics inside simulated runs are part of the runs
pub fn quiet() -> bool {
    QUIET.load(std::sync::atomic::Ordering::Relaxed)
}
fn hush() {
    QUIET.store(true, std::sync::atomic::Ordering::Relaxed)
}
pub struct Base {
    pub out: Outcome,
    /// the reference run itself did not finish: nothing can be compared with it
    pub bad: bool,
    /// the library started threads of its own
    pub threads: bool,
}
#[derive(Clone)]
pub struct Res {
    pub exit: Exit,
    pub verdict: u32,
    pub msg: String,
    pub outs: Vec<Outcome>,
    pub steps: u64,
    pub pts: u64,
    pub switches: u64,
    pub trace: u64,
    pub rec: Vec<Rec>,
    pub kinds: [u64; 6],
    pub faults: [u64; mzrt::NFAULT],
    pub env_hits: [u64; 8],
    pub vtime: u64,
    pub aux: [u64; 32],
    pub finished: bool,
}
impl Res {
    /// everything observable of a run in one number
    pub fn digest(&self) -> u64 {
        let mut h = mix(self.trace ^ self.steps ^ (self.pts << 20) ^ ((self.verdict as u64) << 50));
        for o in &self.outs {
            h = mix(h ^ o.status as u64 ^ ((o.n as u64) << 8) ^ ((o.cbs as u64) << 16) ^ ((o.fl as u64) << 40));
            for w in o.words() {
                h = mix(h ^ w);
            }
        }
        for b in self.msg.bytes() {
            h = mix(h ^ b as u64);
        }
        h
    }
}
/// where an object came from
pub enum Lin {
    Spec(ObjSpec),
    /// what it was before, the call, its operands
    Mut(Rc<Lin>, Step, Rc<Lin>, Rc<Lin>, Vec<Rc<Lin>>),
}
fn hash_spec(h: u64, o: &ObjSpec) -> u64 {
    let mut h = mix(h ^ o.ty as u64 ^ ((o.rm as u64) << 9));
    for x in &o.v {
        h = mix(h ^ x.to_bits());
    }
    mix(h ^ o.vic.map_or(1, |v| v.to_bits()))
}
fn hash_step(h: u64, s: &Step) -> u64 {
    let mut h = mix(h ^ s.op as u64 ^ ((s.part as u64) << 20) ^ ((s.i as u64) << 32));
    h = mix(h ^ s.s.to_bits() ^ s.warp.to_bits().rotate_left(17));
    h = mix(h ^ s.list.len() as u64 ^ ((s.vers.len() as u64) << 32));
    if let Some((a, b)) = s.fixed {
        h = mix(h ^ 0x1000 ^ a as u64 ^ ((b as u64) << 32));
    }
    h
}
fn hash_all(h: u64, l: &[Rc<Lin>]) -> u64 {
    l.iter().fold(mix(h), |h, x| mix(h.rotate_left(5) ^ x.hash()))
}
fn with<'a>(a: &'a Obj, b: &'a Obj, l: &'a [Box<Obj>]) -> Vec<&'a Obj> {
    let mut v = vec![a, b];
    v.extend(l.iter().map(|x| &**x));
    v
}
/// the step on objects laid out as a, b, and the members of its list
fn placed_in(s: &Step) -> Step {
    let mut s = s.clone();
    s.a = 0;
    s.b = 1;
    for (k, x) in s.list.iter_mut().enumerate() {
        *x = k as u16 + 2;
    }
    s
}
impl Lin {
    pub fn hash(&self) -> u64 {
        match self {
            Lin::Spec(s) => hash_spec(1, s),
            Lin::Mut(d, s, a, b, l) => hash_all(hash_step(d.hash(), s) ^ a.hash().rotate_left(7) ^ b.hash().rotate_left(31), l),
        }
    }
    pub fn eval(&self, defs: &[OpDef]) -> Box<Obj> {
        match self {
            Lin::Spec(s) => Box::new(build_all(std::slice::from_ref(s)).pop().unwrap()),
            Lin::Mut(d, s, a, b, l) => {
                let mut r = d.eval(defs);
                let (a, b) = (a.eval(defs), b.eval(defs));
                let l: Vec<Box<Obj>> = l.iter().map(|x| x.eval(defs)).collect();
                let w = World { defs, objs: with(&a, &b, &l), specs: &[] };
                let t = placed_in(s);
                let mut o = OUT0;
                run_into(&w, &t, Some(&mut r), &mut o);
                r
            }
        }
    }
}
pub struct Survey {
    pub next: u32,
    pub values: u32,
    pub sig: u8,
    pub nsig: u32,
    pub sigs: [u32; 64],
    pub counts: [u32; mzrt::COVN],
    /// the first call, counted from 1, that returned a value after taking an edge; that failed
    pub first: [u32; mzrt::COVN],
    pub failed: [u32; mzrt::COVN],
    pub last: [u32; mzrt::COVN],
}
impl Survey {
    pub fn new() -> &'static mut Survey {
        unsafe { &mut *(mzrt::map_shared(std::mem::size_of::<Survey>()) as *mut Survey) }
    }
    fn reset(&mut self) {
        unsafe { std::ptr::write_bytes(self as *mut Survey as *mut u8, 0, std::mem::size_of::<Survey>()) }
    }
}
pub struct Sim {
    pub defs: Vec<OpDef>,
    pub shm: &'static mut Shm,
    pub cache: HashMap<u64, Base>,
    pub base_runs: u64,
    pub secs: u32,
}
fn cfg(seed: u64, strategy: Strategy, limit: u64) -> SchedCfg {
    SchedCfg { seed, strategy, stalls: vec![], op_limit: limit, stall_mode: false }
}
pub const SOLO_LIMIT: u64 = 3_000_000;

impl Sim {
    pub fn new() -> Sim {
        let s = mzrt::new_shm();
        unsafe { mzrt::SHM = s };
        Sim { defs: table(), shm: unsafe { &mut *mzrt::SHM }, cache: HashMap::new(), base_runs: 0, secs: 20 }
    }
    fn collect(&mut self, exit: Exit) -> Res {
        let s = &self.shm;
        Res {
            exit,
            verdict: s.verdict,
            msg: s.message(),
            outs: s.out[..(s.nout as usize).min(mzrt::MAXOUT)].to_vec(),
            steps: s.steps,
            pts: s.pts,
            switches: s.switches,
            trace: s.trace,
            rec: s.rec[..s.nrec as usize].to_vec(),
            kinds: s.kinds,
            faults: s.faults,
            env_hits: s.env_hits,
            vtime: s.vtime,
            aux: s.aux,
            finished: s.finished == 1,
        }
    }
    fn reference(&mut self, key: u64, f: impl FnOnce(&[OpDef])) -> &Base {
        if !self.cache.contains_key(&key) {
            if self.cache.len() > 200_000 {
                self.cache.clear();
            }
            self.shm.reset();
            let defs = &self.defs;
            let exit = mzrt::in_child(self.secs, || {
                hush();
                mzrt::set_env(ENV0);
                f(defs);
                shm().finished = 1;
            });
            self.base_runs += 1;
            let s = &self.shm;
            let bad = exit != Exit::Code(0) || s.finished != 1 || s.verdict != 0;
            let threads = s.env_hits[6] > 0;
            self.cache.insert(key, Base { out: self.shm.out[0], bad, threads });
        }
        &self.cache[&key]
    }
    /// the call alone, with nothing going wrong, as the first of its process
    pub fn solo(&mut self, st: &Step, objs: &[ObjSpec]) -> &Base {
        let mut s = Step { vers: st.vers.clone(), list: st.list.clone(), trig: vec![], ..*st };
        s.fail = STEP0.fail;
        s.uid = 0;
        if s.fixed.is_none() {
            s.vers.clear();
        }
        let mut h = hash_step(7, &s);
        let mut used: Vec<u16> = vec![s.a, s.b];
        used.extend(&s.list);
        used.extend(&s.vers);
        for &u in &used {
            h = match objs.get(u as usize) {
                Some(o) => hash_spec(h, o),
                None => mix(h ^ 99),
            };
        }
        // the same object on both sides is a case of its own
        h = mix(h ^ (s.a == s.b) as u64);
        self.reference(h, |defs| {
            let d = dummy();
            let built: Vec<Option<Obj>> = objs
                .iter()
                .enumerate()
                .map(|(i, o)| if used.contains(&(i as u16)) { build_all(std::slice::from_ref(o)).pop() } else { None })
                .collect();
            let w = World { defs, objs: built.iter().map(|o| o.as_ref().unwrap_or(&d)).collect(), specs: objs };
            mzrt::run_single(cfg(1, Strategy::Serial { p_op: 0 }, SOLO_LIMIT), || run_step(&w, &s));
        })
    }
    /// a call on objects with a history of their own, and no other objects in existence
    pub fn solo_lin(&mut self, st: &Step, recv: Option<&Rc<Lin>>, a: &Rc<Lin>, b: &Rc<Lin>, l: &[Rc<Lin>]) -> &Base {
        let mut s = placed_in(st);
        s.uid = 0;
        let h = mix(hash_step(11, &s) ^ a.hash() ^ b.hash().rotate_left(9) ^ recv.map_or(5, |r| r.hash().rotate_left(17)));
        let h = hash_all(h, l);
        self.reference(h, |defs| {
            let (x, y) = (a.eval(defs), b.eval(defs));
            let l: Vec<Box<Obj>> = l.iter().map(|x| x.eval(defs)).collect();
            let mut r = recv.map(|r| r.eval(defs));
            let w = World { defs, objs: with(&x, &y, &l), specs: &[] };
            mzrt::run_single(cfg(1, Strategy::Serial { p_op: 0 }, SOLO_LIMIT), || run_step_on(&w, &s, r.as_deref_mut()));
        })
    }
    /// many calls of one kind in one process: which of them touch what no call should need, and which
    /// take a path that few take
    pub fn survey(&mut self, n: u32, make: &dyn Fn(u64) -> (Step, Vec<ObjSpec>), out: &mut Survey) {
        out.reset();
        static STATICS: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
        let statics = STATICS.get_or_init(mzrt::lib_statics);
        let look = || statics.iter().fold(3, |h, &(a, n)| (0..n).fold(h, |h, i| mix(h ^ unsafe { std::ptr::read_volatile((a + i) as *const u8) } as u64)));
        while out.next < n {
            let from = out.next;
            self.shm.reset();
            let defs = &self.defs;
            let o: *mut Survey = &mut *out;
            mzrt::in_child(self.secs, || {
                hush();
                mzrt::set_env(ENV0);
                let cov = mzrt::map_shared(mzrt::COVN);
                let out = unsafe { &mut *o };
                mzrt::run_single(cfg(1, Strategy::Serial { p_op: 0 }, SOLO_LIMIT), || unsafe {
                    mzrt::COV = cov;
                    for k in from..n {
                        out.next = k + 1;
                        let (mut s, specs) = make(k as u64);
                        // the last ones without memory
                        let dry = k >= n - n / 8;
                        if dry {
                            s.fail = (k % 3, u32::MAX);
                        }
                        std::ptr::write_bytes(cov, 0, mzrt::COVN);
                        let before = (shm().kinds[0], mzrt::TLS_HITS, shm().env_hits.iter().sum::<u64>(), mzrt::live().0);
                        let mut o = OUT0;
                        let inside;
                        let seen = look();
                        {
                            let objs = build_all(&specs);
                            let w = World { defs, objs: objs.iter().collect(), specs: &specs };
                            let was = (raw(&objs), mzrt::live().0);
                            alone(&w, &s, &mut o);
                            inside = was != (raw(&objs), mzrt::live().0);
                        }
                        let after = (shm().kinds[0], mzrt::TLS_HITS, shm().env_hits.iter().sum::<u64>(), mzrt::live().0);
                        let after = (after.0 + (seen != look()) as u64, after.1, after.2, after.3);
                        let value = o.status == S_VALUE;
                        if dry {
                            out.sig |= (after.0 != before.0) as u8 | ((after.1 != before.1) as u8) << 1;
                            continue;
                        }
                        if value {
                            out.values += 1;
                            let sig = (after.0 != before.0) as u8 | ((after.1 != before.1) as u8) << 1 | ((after.2 != before.2) as u8) << 2 | ((after.3 > before.3) as u8) << 3
                                | (inside as u8) << 4;
                            out.sig |= sig;
                            if sig != 0 {
                                if (out.nsig as usize) < out.sigs.len() {
                                    out.sigs[out.nsig as usize] = k;
                                }
                                out.nsig += 1;
                            }
                        }
                        let words = std::slice::from_raw_parts(cov as *const u64, mzrt::COVN / 8);
                        for (i, x) in words.iter().enumerate() {
                            if *x != 0 {
                                for j in 0..8 {
                                    let g = i * 8 + j;
                                    if *cov.add(g) != 0 {
                                        out.counts[g] += 1;
                                        let f = if value { &mut out.first[g] } else { &mut out.failed[g] };
                                        if *f == 0 {
                                            *f = k + 1;
                                        }
                                        out.last[g] = k + 1;
                                    }
                                }
                            }
                        }
                    }
                });
            });
            if out.next == from {
                // it did not even begin
                break;
            }
        }
    }
    pub fn run(&mut self, p: &Plan, limits: &[u64], expect: &[Option<Outcome>]) -> Res {
        self.shm.reset();
        let defs = &self.defs;
        let exit = mzrt::in_child(self.secs, || {
            hush();
            mzrt::set_env(p.env);
            match p.kind {
                Kind::Calls => calls(defs, p, limits),
                Kind::Waves => waves(defs, p),
                Kind::Lineage => lineage(defs, p, limits),
                Kind::Net => crate::net::run(defs, p),
                Kind::Leak => leak(defs, p),
                Kind::Soak => soak(defs, p, expect),
            }
            if p.prop == "C06" || p.prop == "C13" {
                check_hook();
            }
            shm().finished = 1;
        });
        self.collect(exit)
    }
}
/// the memory of the objects themselves, down to what no answer shows
fn raw(objs: &[Obj]) -> u64 {
    let p = objs.as_ptr() as *const u64;
    let n = std::mem::size_of_val(objs) / 8;
    (0..n).fold(7, |h, i| mix(h ^ unsafe { std::ptr::read_volatile(p.add(i)) }))
}
/// run f further down the stack
#[inline(never)]
fn deeper(n: u32, f: &mut dyn FnMut()) {
    let mut pad = [0u8; 1008];
    std::hint::black_box(&mut pad);
    if n == 0 {
        f()
    } else {
        deeper(n - 1, f)
    }
    std::hint::black_box(&pad);
}
/// a call leaves rounding and the treatment of tiny numbers alone
fn check_mode(before: u32, call: &str) {
    if mzrt::fp_mode() != before {
        shm().note(&format!("{} changed the floating-point mode of its thread, and so the answers of later calls", call));
    }
}
/// how often the panic hook of this program was called
pub static HOOKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// the caller's panic hook is still in place
fn check_hook() {
    let n = || HOOKED.load(std::sync::atomic::Ordering::SeqCst);
    let before = n();
    let _ = std::panic::catch_unwind(|| panic!("is anybody there"));
    if n() == before {
        shm().note("the calls left the process with another panic hook: later failures are no longer reported as before");
    }
}
fn go(defs: &[OpDef], objs: &[Obj], specs: &[ObjSpec], steps: &[Step], limits: &[u64], p: &Plan) {
    if p.env.on {
        deeper(p.env.heap_off >> 8 & 31, &mut || go_on(defs, objs, specs, steps, limits, p))
    } else {
        go_on(defs, objs, specs, steps, limits, p)
    }
}
fn go_on(defs: &[OpDef], objs: &[Obj], specs: &[ObjSpec], steps: &[Step], limits: &[u64], p: &Plan) {
    let w = World { defs, objs: objs.iter().collect(), specs };
    let mode = mzrt::fp_mode();
    for s in steps {
        mzrt::op_begin(limits.get(s.uid as usize).copied().unwrap_or(u64::MAX / 2));
        mzrt::yield_point();
        run_step(&w, s);
        if p.prop == "C13" {
            check_mode(mode, &defs[s.op as usize].name);
        }
    }
}
fn used_by(p: &Plan, t: usize) -> Vec<bool> {
    let mut u = vec![false; p.objs.len()];
    p.each_step(|x, s| {
        if x == t {
            for i in [s.a, s.b].iter().chain(&s.list).chain(&s.vers) {
                if let Some(b) = u.get_mut(*i as usize) {
                    *b = true
                }
            }
        }
    });
    u
}
fn check_shared(objs: &[Obj], before: &[u64]) {
    for (i, o) in objs.iter().enumerate() {
        if state_hash(o) != before[i] {
            shm().note(&format!("shared object {} ({}) was changed by calls that only read it", i, ty_name(o.ty())));
        }
    }
}
fn calls(defs: &[OpDef], p: &Plan, limits: &[u64]) {
    let c = SchedCfg {
        seed: p.sched_seed,
        strategy: p.strat.clone(),
        stalls: p.stalls.clone(),
        op_limit: u64::MAX / 2,
        stall_mode: p.prop == "C04",
    };
    let objs = if p.private { vec![dummy()] } else { build_all(&p.objs) };
    let before: Vec<u64> = objs.iter().map(state_hash).collect();
    if p.prop == "C05" {
        unsafe { mzrt::STACK = 64 << 20 };
    }
    if p.tasks.len() == 1 && !p.private {
        mzrt::run_single(c, || go(defs, &objs, &p.objs, &p.tasks[0], limits, p));
    } else {
        let sh = Share0(&(defs, &objs, p, limits));
        let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..p.tasks.len())
            .map(|t| {
                let sh = unsafe { std::mem::transmute::<_, Share0<&'static (&'static [OpDef], &'static Vec<Obj>, &'static Plan, &'static [u64])>>(sh) };
                Box::new(move || {
                    let sh = sh;
                    let (defs, objs, p, limits) = *sh.0;
                    if p.private {
                        let u = used_by(p, t);
                        let mine: Vec<Obj> =
                            p.objs.iter().enumerate().map(|(i, o)| if u[i] { build_all(std::slice::from_ref(o)).pop().unwrap() } else { dummy() }).collect();
                        go(defs, &mine, &p.objs, &p.tasks[t], limits, p);
                    } else {
                        go(defs, objs, &p.objs, &p.tasks[t], limits, p);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        mzrt::run_tasks(c, tasks);
    }
    check_shared(&objs, &before);
}
struct AtExit(std::cell::Cell<Option<Box<dyn FnOnce()>>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local!(static AT_EXIT: AtExit = const { AtExit(std::cell::Cell::new(None)) });
fn waves(defs: &[OpDef], p: &Plan) {
    let objs = build_all(&p.objs);
    let before: Vec<u64> = objs.iter().map(state_hash).collect();
    let sh = Share0(&(defs, &objs, p));
    for t in 0..p.tasks.len() {
        let sh = unsafe { std::mem::transmute::<_, Share0<&'static (&'static [OpDef], &'static Vec<Obj>, &'static Plan)>>(sh) };
        let mut b = std::thread::Builder::new().stack_size(512 << 10);
        if let Some(n) = mzrt::thread_name(t) {
            b = b.name(n);
        }
        let h = b.spawn(move || {
            let sh = sh;
            let (defs, objs, p) = *sh.0;
            mzrt::harness_thread_begins();
            let at = p.tasks[t].iter().position(|s| s.part & 16 != 0).unwrap_or(p.tasks[t].len());
            let (now, last) = p.tasks[t].split_at(at);
            if last.is_empty() {
                go(defs, objs, &p.objs, now, &[], p);
                mzrt::harness_thread_ends();
                return;
            }
            // the last calls are made by a destructor of this thread, after those of the library have run
            AT_EXIT.with(|x| {
                x.0.set(Some(Box::new(move || {
                    last.iter().for_each(|_| mzrt::fired(mzrt::fault::LAST_CALL));
                    go(defs, objs, &p.objs, last, &[], p);
                    mzrt::harness_thread_ends();
                })))
            });
            go(defs, objs, &p.objs, now, &[], p);
        });
        match h.map(|h| h.join()) {
            Ok(Ok(())) => mzrt::fired(mzrt::fault::THREAD_EXIT),
            _ => shm().note("a thread could not finish"),
        }
    }
    check_shared(&objs, &before);
}
fn lineage(defs: &[OpDef], p: &Plan, limits: &[u64]) {
    let c = cfg(p.sched_seed, p.strat.clone(), u64::MAX / 2);
    let objs = build_all(&p.objs);
    let before: Vec<u64> = objs.iter().map(state_hash).collect();
    let sh = Share0(&(defs, &objs, p, limits));
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..p.progs.len())
        .map(|t| {
            let sh = unsafe { std::mem::transmute::<_, Share0<&'static (&'static [OpDef], &'static Vec<Obj>, &'static Plan, &'static [u64])>>(sh) };
            Box::new(move || {
                let sh = sh;
                let (defs, objs, p, limits) = *sh.0;
                program(defs, objs, &p.objs, &p.progs[t], limits, t)
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    mzrt::run_tasks(c, tasks);
    check_shared(&objs, &before);
}
pub const SHARED: u16 = 1000;
pub const NSLOT: usize = 8;
fn program(defs: &[OpDef], objs: &[Obj], specs: &[ObjSpec], prog: &[L], limits: &[u64], t: usize) {
    let mut slots: Vec<Box<Obj>> = (0..NSLOT).map(|_| Box::new(dummy())).collect();
    let mut keep: Vec<Box<Obj>> = vec![];
    let mut hs: Vec<u64> = slots.iter().map(|s| state_hash(s)).collect();
    for (at, l) in prog.iter().enumerate() {
        let n = at;
        mzrt::op_begin(limits.get(l.step.uid as usize).copied().unwrap_or(u64::MAX / 2));
        mzrt::yield_point();
        let d = l.d as usize % NSLOT;
        match l.k {
            0 => {
                let a = l.step.a;
                let mut old = std::mem::replace(&mut slots[d], Box::new(dummy()));
                let own = a < SHARED && a as usize % NSLOT == d;
                let c = {
                    let from: &Obj = if a >= SHARED { &objs[(a - SHARED) as usize % objs.len()] } else { &slots[a as usize % NSLOT] };
                    let want = state_hash(if own { &old } else { from });
                    // a new object, or the old one in its place
                    let c = if own {
                        Box::new(lib(|| (*old).clone()))
                    } else if l.step.i & 1 == 1 && old.copy_from(from) {
                        old
                    } else {
                        let c = Box::new(lib(|| from.clone()));
                        drop(old);
                        c
                    };
                    if state_hash(&c) != want {
                        shm().note(&format!("thread {} step {}: a fresh copy differs from its original", t, n));
                    }
                    c
                };
                slots[d] = c;
            }
            4 => {
                let n = (l.step.a - SHARED) as usize % specs.len();
                slots[d] = Box::new(build_all(std::slice::from_ref(&specs[n])).pop().unwrap());
                if state_hash(&slots[d]) != state_hash(&objs[n]) {
                    shm().note(&format!(
                        "thread {} step {}: a {} built from the same numbers as an earlier one differs from it",
                        t,
                        at,
                        ty_name(specs[n].ty)
                    ));
                }
            }
            3 => {
                let a = l.step.a;
                let b = l.step.b;
                for n in 0..l.step.i % 1024 {
                    let mut c = {
                        let src: &Obj = if a >= SHARED { &objs[(a - SHARED) as usize % objs.len()] } else { &slots[a as usize % NSLOT] };
                        if a >= SHARED && n % 2 == 1 {
                            // anew, from the same numbers
                            Box::new(build_all(std::slice::from_ref(&specs[(a - SHARED) as usize % specs.len()])).pop().unwrap())
                        } else {
                            Box::new(lib(|| src.clone()))
                        }
                    };
                    let y: &Obj = if b >= SHARED { &objs[(b - SHARED) as usize % objs.len()] } else { &slots[b as usize % NSLOT] };
                    if c.ty() == defs[l.step.op as usize].ta {
                        let w = World { defs, objs: vec![y, y], specs: &[] };
                        let mut s = l.step.clone();
                        s.a = 0;
                        s.b = 1;
                        if l.step.i < 1024 {
                            s.s += n as f64 / 16.0;
                        }
                        s.i = n;
                        let mut o = OUT0;
                        run_into(&w, &s, Some(&mut c), &mut o);
                    }
                    // some stay, some go
                    if n % 4 != 3 {
                        keep.push(c);
                    }
                }
            }
            _ => {
                let mut target = None;
                if l.k == 1 {
                    // the box moves out of the table, the object in it stays where it is
                    target = Some(std::mem::replace(&mut slots[d], Box::new(dummy())));
                }
                let dm = dummy();
                let pick = |a: u16| -> &Obj {
                    if a >= SHARED {
                        &objs[(a - SHARED) as usize % objs.len()]
                    } else if l.k == 1 && a as usize % NSLOT == d {
                        &dm
                    } else {
                        &slots[a as usize % NSLOT]
                    }
                };
                let mut all = vec![pick(l.step.a), pick(l.step.b)];
                all.extend(l.step.list.iter().map(|&x| pick(x)));
                let w = World { defs, objs: all, specs: &[] };
                let s = placed_in(&l.step);
                run_step_on(&w, &s, target.as_deref_mut());
                drop(w);
                if let Some(b) = target {
                    slots[d] = b;
                }
            }
        }
        for i in 0..NSLOT {
            let h = state_hash(&slots[i]);
            if h != hs[i] && !(i == d && (l.k < 2 || l.k == 4)) {
                shm().note(&format!(
                    "thread {} step {}: object {} ({}) changed although the step only touched object {}",
                    t,
                    n,
                    i,
                    ty_name(slots[i].ty()),
                    d
                ));
            }
            hs[i] = h;
        }
    }
}
/// the objects of repetition n of a plan whose arguments change
fn varied(specs: &[ObjSpec], n: u32) -> Vec<ObjSpec> {
    let mut v = specs.to_vec();
    let x = n as f64;
    let one = n as usize / 3 % specs.len().max(1);
    for (i, o) in v.iter_mut().enumerate() {
        let l = o.v.len();
        // all of them, or only one
        if l == 0 || n % 3 == 2 && i != one {
            continue;
        }
        if n % 53 == 29 {
            // numbers of an unusual kind: one of them, or all
            let odd = [1e-310, f64::NAN, 1e-40, 0.0, f64::INFINITY, -1e-42, 1e300, -0.0, -5e-324, f64::NEG_INFINITY, 1e39];
            let k = odd[n as usize / 53 % odd.len()];
            let at = n as usize / 53 / 2 % l;
            o.v.iter_mut().enumerate().for_each(|(i, y)| if n % 2 == 0 || i == at { *y = k });
            continue;
        }
        match n % 4 {
            0 => o.v[0] += x / 1024.0,
            1 => o.v[l - 1] += x / 4096.0,
            2 => o.v.iter_mut().for_each(|y| *y *= 1.0 + x / 65536.0),
            _ => {
                let i = n as usize / 4 % l;
                o.v[i] = x / 512.0 - o.v[i];
            }
        }
    }
    v
}
fn leak(defs: &[OpDef], p: &Plan) {
    let objs = build_all(&p.objs);
    let sh = Share0(&(defs, &objs, p));
    let rep = std::cell::Cell::new(0u32);
    let rep = Share0(&rep);
    let once = |n: u32| {
        let (defs, objs, p) = *sh.0;
        for _ in 0..n {
            let k = rep.0.get();
            rep.0.set(k + 1);
            let (specs, other);
            let w = if p.vary {
                specs = varied(&p.objs, k);
                other = build_all(&specs);
                World { defs, objs: other.iter().collect(), specs: &specs }
            } else {
                World { defs, objs: objs.iter().collect(), specs: &p.objs }
            };
            for s in &p.tasks[0] {
                let mut o = OUT0;
                if p.vary && k % 4 != 0 {
                    let mut s = s.clone();
                    s.s += (k % 4099) as f64 / 4096.0;
                    alone(&w, &s, &mut o);
                } else {
                    alone(&w, s, &mut o);
                }
                let sh = shm();
                sh.aux[0] += 1;
                if o.status != S_VALUE {
                    sh.aux[1] += 1;
                }
                sh.out[s.uid as usize] = o;
                sh.nout = sh.nout.max(s.uid as u32 + 1);
            }
        }
    };
    let cycle = |n: u32| {
        if !p.private {
            return once(n);
        }
        let once = Share0(&once as &dyn Fn(u32));
        for _ in 0..n {
            let once = unsafe { std::mem::transmute::<_, Share0<&'static dyn Fn(u32)>>(once) };
            let _ = std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn(move || {
                    let once = once;
                    mzrt::harness_thread_begins();
                    (once.0)(2);
                    mzrt::harness_thread_ends();
                })
                .map(|h| h.join());
            mzrt::fired(mzrt::fault::THREAD_EXIT);
        }
    };
    let r = p.reps.max(8);
    let mut done = 0;
    let mut live = vec![];
    // each thread counts like a stack, each file like a buffer
    let mut check = |at: u32, live: &mut Vec<(u32, i64)>| {
        cycle(at - done);
        done = at;
        let (t, f) = (mzrt::lib_threads(), mzrt::open_files());
        shm().aux[4] = t;
        shm().aux[5] = f;
        live.push((at, mzrt::live().0 + (t as i64 * 65536) + (f as i64 * 8192) + (mzrt::system_memory() << 14) as i64));
    };
    for at in [r / 64 + 1, r / 4, r] {
        check(at, &mut live);
    }
    shm().aux[2] = live[2].1 as u64;
    shm().vtime = shm().aux[0];
    if live[2].1 > live[1].1 {
        // a table that fills up once is not growth: look further before complaining
        let grow = if p.private { [2 * r, 4 * r] } else { [4 * r, 16 * r] };
        for at in grow {
            check(at, &mut live);
        }
        if live[4].1 > live[3].1 && live[3].1 > live[2].1 {
            let l: Vec<String> = live.iter().map(|x| format!("{} bytes after {} repetitions", x.1, x.0)).collect();
            shm().note(&format!("memory in use{} keeps growing: {}", if shm().aux[4] + shm().aux[5] > 3 { " (with that of files and threads)" } else { "" }, l.join(", ")));
        }
    }
}
fn alone(w: &World, s: &Step, o: &mut Outcome) {
    if w.defs[s.op as usize].inplace {
        let orig = w.ob(s.a);
        let mut r = lib(|| orig.clone());
        run_into(w, s, Some(&mut r), o);
    } else {
        run_into(w, s, None, o);
    }
}
/// one call on objects made for it (in the place of the ones before), with other numbers if n is given
fn anew(defs: &[OpDef], p: &Plan, s: &Step, n: Option<u32>, o: &mut Outcome) {
    let mut s = s.clone();
    let mut specs = vec![];
    for x in [&mut s.a, &mut s.b].into_iter().chain(&mut s.list).chain(&mut s.vers) {
        specs.push(p.objs[*x as usize % p.objs.len()].clone());
        *x = specs.len() as u16 - 1;
    }
    if let Some(n) = n {
        specs = varied(&specs, n);
        if n % 8 > 2 {
            s.s += (n % 4099) as f64 / 4096.0;
        }
    }
    let objs = build_all(&specs);
    alone(&World { defs, objs: objs.iter().collect(), specs: &specs }, &s, o);
}
fn soak(defs: &[OpDef], p: &Plan, expect: &[Option<Outcome>]) {
    let objs = build_all(&p.objs);
    let w = World { defs, objs: objs.iter().collect(), specs: &p.objs };
    let mut rng = mzrt::Rng::new(p.seed ^ 0x50a4);
    if !p.private {
        soak_part(defs, p, expect, &w, &mut rng, 0..p.reps);
    } else {
        // by threads that end, one after the other, and now and then by the first
        let mut n = 0;
        while n < p.reps && shm().verdict == 0 {
            let k = *rng.pick(&[1, 1, 16, 256, 1500, 6000]);
            let to = (n + k).min(p.reps);
            if rng.chance(1, 4) {
                soak_part(defs, p, expect, &w, &mut rng, n..to);
            } else {
                let mut f = || soak_part(defs, p, expect, &w, &mut rng, n..to);
                let f = Share0(&mut f as &mut dyn FnMut());
                let f = unsafe { std::mem::transmute::<_, Share0<&'static mut dyn FnMut()>>(f) };
                let h = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
                    let f = f;
                    mzrt::harness_thread_begins();
                    (f.0)();
                    mzrt::harness_thread_ends();
                });
                match h.map(|h| h.join()) {
                    Ok(Ok(())) => mzrt::fired(mzrt::fault::THREAD_EXIT),
                    _ => shm().note("a thread could not finish"),
                }
            }
            n = to;
        }
    }
    shm().vtime = shm().aux[0];
}
fn soak_part(defs: &[OpDef], p: &Plan, expect: &[Option<Outcome>], w: &World, rng: &mut mzrt::Rng, range: std::ops::Range<u32>) {
    let all = &p.tasks[0];
    let mode = mzrt::fp_mode();
    for n in range {
        let steps = if p.habit && n < p.reps / 2 { &all[..all.len().div_ceil(2)] } else { &all[..] };
        if p.vary {
            // many different calls, and the ones that are judged now and then in between
            let mut o = OUT0;
            anew(defs, p, &steps[n as usize / 4 % steps.len()], Some(n), &mut o);
            if !rng.chance(1, 4) {
                continue;
            }
        }
        // runs of the same call, and changes between calls
        let k = if rng.chance(1, 3) { rng.below(steps.len() as u64) as usize } else { (n as usize) % steps.len() };
        let s = &steps[k];
        let mut o = OUT0;
        if p.vary && rng.chance(1, 2) {
            anew(defs, p, s, None, &mut o);
        } else {
            alone(w, s, &mut o);
        }
        if p.prop == "C13" {
            check_mode(mode, &defs[s.op as usize].name);
        }
        let failed = o.fl & (mzrt::FL_PANIC | mzrt::FL_BADKIND) != 0;
        if failed && (o.status == S_VALUE || o.fl & mzrt::FL_RECV != 0 || (o.fl & mzrt::FL_PANIC != 0 && o.status != S_INJECTED)) {
            let what = if o.fl & mzrt::FL_RECV != 0 { ", and its receiver was changed" } else { "" };
            shm().note(&format!(
                "call number {} in the process, {}: a participant failed during the call, and the call ended as {}{}",
                n + 1,
                defs[s.op as usize].name,
                crate::judge::text(&o),
                what
            ));
            break;
        }
        if let Some(Some(e)) = expect.get(s.uid as usize) {
            if !o.same(e) {
                shm().note(&format!("call number {} in the process, {}, {}", n + 1, defs[s.op as usize].name, crate::judge::differ(&o, e)));
                shm().aux[3] = n as u64 + 1;
                break;
            }
        }
        shm().aux[0] = n as u64 + 1;
    }
}
