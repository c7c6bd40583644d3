//! Simulated participants and the execution of one step.
use crate::*;
use mazth::i_bound::BoundType;
use mazth::i_vicinity::IVicinity;
use mzrt::{fault, fired};
use std::cell::Cell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// what a participant does at one of its callbacks
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Panic,
    /// run these library calls before answering
    Nest(Vec<Step>),
    /// panic, and run these library calls in a destructor while the stack unwinds
    Unwind(Vec<Step>),
    /// when the call fails by itself or because of a participant: run these library calls in the
    /// panic hook (not at any callback)
    Hook(Vec<Step>),
    /// let another thread run
    Yield,
    /// be suspended
    Stall,
    /// change to the next version of the geometry
    Move,
    /// claim to be a kind of bound the library does not support
    BadKind,
    /// from now on supply only this many numbers of the geometry
    Short(u32),
    NoSupport,
    Jitter([f64; 3]),
    /// repeat the previous support point
    Stale,
}
impl Act {
    /// calls made by the participant
    pub fn inner(&self) -> Option<&Vec<Step>> {
        match self {
            Act::Nest(v) | Act::Unwind(v) | Act::Hook(v) => Some(v),
            _ => None,
        }
    }
    pub fn inner_mut(&mut self) -> Option<&mut Vec<Step>> {
        match self {
            Act::Nest(v) | Act::Unwind(v) | Act::Hook(v) => Some(v),
            _ => None,
        }
    }
}
struct Cleanup<'a>(&'a World<'a>, &'a [Step]);
impl<'a> Drop for Cleanup<'a> {
    fn drop(&mut self) {
        outside(|| {
            for s in self.1 {
                fired(fault::UNWINDING);
                run_step(self.0, s);
            }
        })
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Trig {
    pub at: u32,
    pub act: Act,
}
/// one call of the library, with everything that goes wrong during it
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    /// number of the step in the whole plan: where its outcome is reported
    pub uid: u16,
    pub op: u16,
    pub a: u16,
    pub b: u16,
    pub s: f64,
    pub i: u32,
    /// 1: b is a participant, 2: a is a participant (GJK), 4: the very participants of the
    /// interrupted call (of a call made from a callback), 8: the operands of a union are the
    /// objects themselves and no participants, 16: made by a destructor when the thread ends
    pub part: u8,
    /// further versions of b
    pub vers: Vec<u16>,
    /// operands of a union (objects); empty: a and b
    pub list: Vec<u16>,
    pub trig: Vec<Trig>,
    /// these allocations of the call fail
    pub fail: (u32, u32),
    /// the participants give their geometry in units of their own: numbers after the third are
    /// multiplied by this (a normal that is no unit vector, say)
    pub warp: f64,
    /// fixed (bound, geometry) versions: oracle runs only
    pub fixed: Option<(u16, u16)>,
}
pub const STEP0: Step =
    Step { uid: 0, op: 0, a: 0, b: 0, s: 0.0, i: 0, part: 0, vers: vec![], list: vec![], trig: vec![], fail: (u32::MAX, 0), warp: 1.0, fixed: None };

pub struct World<'a> {
    pub defs: &'a [OpDef],
    pub objs: Vec<&'a Obj>,
    pub specs: &'a [ObjSpec],
}
impl<'a> World<'a> {
    pub fn ob(&self, i: u16) -> &'a Obj {
        self.objs[(i as usize).min(self.objs.len() - 1)]
    }
}

/// payload of an injected participant failure
pub struct Injected;
/// payload used to break out of an endless query
pub struct Endless;
pub const SETTLE_LIMIT: u32 = 1000;

pub struct Ctx<'a> {
    pub w: &'a World<'a>,
    pub trig: &'a [Trig],
    pub cb: Cell<u32>,
    /// support requests per participant since the last disturbance
    pub calm: [Cell<u32>; 2],
    pub fl: Cell<u32>,
    pub moves: Cell<u32>,
    /// the participants themselves
    pub own: Cell<(*const Part<'a>, *const Part<'a>, *const [Part<'a>])>,
}
#[thread_local]
static CTX: Cell<*const ()> = Cell::new(std::ptr::null());
fn ctx<'a>() -> Option<&'a Ctx<'a>> {
    let p = CTX.get() as *const Ctx<'a>;
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}
fn flag(f: u32) {
    if let Some(c) = ctx() {
        c.fl.set(c.fl.get() | f);
    }
}
#[derive(Default)]
struct Resp {
    bad: bool,
    none: bool,
    jit: Option<[f64; 3]>,
    stale: bool,
}
#[thread_local]
static HOOKING: Cell<bool> = Cell::new(false);
/// called by the panic hook of the process
pub fn in_hook() {
    outside(|| {
        let Some(c) = ctx() else { return };
        if HOOKING.replace(true) {
            return;
        }
        for t in c.trig {
            if let Act::Hook(v) = &t.act {
                for s in v {
                    fired(fault::IN_HOOK);
                    run_step(c.w, s);
                }
            }
        }
        HOOKING.set(false);
    });
}
pub struct Part<'a> {
    pub v: Vec<&'a Obj>,
    pub cur: Cell<usize>,
    pub fixed: Option<(usize, usize)>,
    pub role: usize,
    pub last: Cell<Option<[f64; 3]>>,
    /// once of an unsupported kind, always (0: not; shapes: which kind)
    bad_bound: Cell<bool>,
    bad_shape: Cell<u32>,
    /// how much of the geometry is supplied
    short: Cell<u32>,
    warp: f64,
}
impl<'a> Part<'a> {
    pub fn new(v: Vec<&'a Obj>, role: usize, warp: f64) -> Part<'a> {
        Part { v, cur: Cell::new(0), fixed: None, role, last: Cell::new(None), bad_bound: Cell::new(false), bad_shape: Cell::new(0), short: Cell::new(u32::MAX), warp }
    }
    fn shape(&self) -> &dyn IShape {
        let i = self.fixed.map(|f| f.1).unwrap_or(self.cur.get());
        match self.v[i].shape() {
            Some(s) => s,
            None => panic!("participant has no shape"),
        }
    }
    fn bound(&self) -> &dyn IBound {
        let i = self.fixed.map(|f| f.0).unwrap_or(self.cur.get());
        match self.v[i].bound() {
            Some(s) => s,
            None => panic!("participant has no bound"),
        }
    }
    /// a callback from the library: let the plan happen
    fn cb(&self) -> Resp {
        outside(|| {
            let mut r = Resp::default();
            let Some(c) = ctx() else { return r };
            let k = c.cb.get();
            c.cb.set(k + 1);
            for t in c.trig.iter().filter(|t| t.at == k) {
                match &t.act {
                    Act::Panic => {
                        fired(fault::PANIC_CB);
                        c.fl.set(c.fl.get() | mzrt::FL_PANIC);
                        panic_any(Injected)
                    }
                    Act::Nest(steps) => {
                        for s in steps {
                            fired(fault::REENTER);
                            run_step(c.w, s);
                        }
                    }
                    Act::Unwind(steps) => {
                        fired(fault::PANIC_CB);
                        c.fl.set(c.fl.get() | mzrt::FL_PANIC);
                        let _clean = Cleanup(c.w, steps);
                        panic_any(Injected)
                    }
                    Act::Hook(_) => {}
                    Act::Yield => mzrt::yield_point(),
                    Act::Stall => mzrt::stall_here(),
                    Act::Move => {
                        if self.v.len() > 1 {
                            fired(fault::MOVE);
                            c.moves.set(c.moves.get() + 1);
                            self.cur.set((self.cur.get() + 1) % self.v.len());
                        }
                    }
                    Act::BadKind => r.bad = true,
                    Act::Short(n) => self.short.set(*n),
                    Act::NoSupport => r.none = true,
                    Act::Jitter(j) => r.jit = Some(*j),
                    Act::Stale => r.stale = true,
                }
            }
            r
        })
    }
}
impl<'a> Part<'a> {
    fn shape_cb(&self) -> Resp {
        let r = self.cb();
        if r.bad && self.bad_shape.get() == 0 {
            self.bad_shape.set(1 + ctx().map_or(0, |c| c.cb.get()) % 4);
        }
        r
    }
}
impl<'a> IVicinity<f64> for Part<'a> {
    fn set_vicinity(&mut self, _e: f64) {}
    fn within_vicinity(&self, a: f64, b: f64) -> bool {
        self.cb();
        let s = self.shape();
        lib(|| s.within_vicinity(a, b))
    }
}
impl<'a> IShape for Part<'a> {
    fn get_shape_data(&self) -> Vec<f64> {
        self.shape_cb();
        let s = self.shape();
        let mut d = lib(|| s.get_shape_data());
        if self.warp != 1.0 {
            d.iter_mut().skip(3).for_each(|x| *x *= self.warp);
        }
        let n = self.short.get() as usize;
        if n < d.len() {
            fired(fault::SHORT);
            flag(mzrt::FL_SHORT);
            d.truncate(n);
        }
        d
    }
    fn get_type(&self) -> ShapeType {
        self.shape_cb();
        let kind = self.bad_shape.get();
        if kind != 0 {
            fired(fault::BADSHAPE);
            flag(mzrt::FL_BADSHAPE);
            return match kind {
                1 => ShapeType::Frustum,
                2 => ShapeType::Trig,
                3 => ShapeType::Rect,
                _ => ShapeType::Complex,
            };
        }
        let s = self.shape();
        lib(|| s.get_type())
    }
    fn get_bound(&self) -> &dyn IBound {
        self.shape_cb();
        self
    }
    fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
        self.shape_cb();
        let s = self.shape();
        lib(|| s.get_intersect(other))
    }
    fn get_support(&self, v: &Mat3x1<f64>) -> Option<Mat3x1<f64>> {
        let r = self.shape_cb();
        if let Some(c) = outside(ctx) {
            let disturbed = r.none || r.jit.is_some() || r.stale;
            if disturbed {
                c.calm[0].set(0);
                c.calm[1].set(0);
            } else {
                let n = c.calm[self.role].get() + 1;
                c.calm[self.role].set(n);
                if n > SETTLE_LIMIT {
                    outside(|| panic_any(Endless));
                }
            }
        }
        if r.none {
            fired(fault::NOSUPPORT);
            flag(mzrt::FL_NOSUPPORT);
            return None;
        }
        if r.stale {
            if let Some(l) = self.last.get() {
                fired(fault::STALE);
                flag(mzrt::FL_DISTURBED);
                return Some(Mat3x1 { _val: l });
            }
        }
        let s = self.shape();
        let mut p = lib(|| s.get_support(v))?;
        if let Some(j) = r.jit {
            fired(fault::JITTER);
            flag(mzrt::FL_DISTURBED);
            p = Mat3x1 { _val: [p._val[0] + j[0], p._val[1] + j[1], p._val[2] + j[2]] };
        }
        self.last.set(Some(p._val));
        Some(p)
    }
}
impl<'a> IBound for Part<'a> {
    fn get_type(&self) -> BoundType {
        let r = self.cb();
        if r.bad && !self.bad_bound.get() {
            fired(fault::BADKIND);
            flag(mzrt::FL_BADKIND);
            self.bad_bound.set(true);
        }
        if self.bad_bound.get() {
            return BoundType::Sphere;
        }
        let b = self.bound();
        lib(|| b.get_type())
    }
    fn intersect(&self, other: &dyn IBound) -> bool {
        self.cb();
        let b = self.bound();
        lib(|| b.intersect(other))
    }
    fn get_shortest_separation(&self, other: &dyn IBound) -> f64 {
        self.cb();
        let b = self.bound();
        lib(|| b.get_shortest_separation(other))
    }
    fn get_bound_data(&self) -> [f64; 32] {
        self.cb();
        let b = self.bound();
        lib(|| b.get_bound_data())
    }
    fn get_union(&mut self, _b: &[&dyn IBound]) {
        panic!("not a receiver")
    }
    fn get_centroid(&self) -> [f64; 3] {
        self.cb();
        let b = self.bound();
        lib(|| b.get_centroid())
    }
}

pub const S_NONE: u32 = 0;
pub const S_VALUE: u32 = 1;
pub const S_PANIC: u32 = 2;
pub const S_INJECTED: u32 = 3;
pub const S_OOM: u32 = 4;
pub const S_ENDLESS: u32 = 5;
pub fn status_name(s: u32) -> &'static str {
    ["not finished", "answered", "library panic", "participant failure", "out of memory", "endless"].get(s as usize).unwrap_or(&"?")
}

struct Restore(*const (), (u32, u32));
impl Drop for Restore {
    fn drop(&mut self) {
        CTX.set(self.0);
        mzrt::fail_allocs(self.1 .0, self.1 .1);
    }
}

/// run one call (on a private copy of the receiver if it works in place); the outcome goes to
/// the slot of the step in the report area
pub fn run_step(w: &World, s: &Step) {
    let def = &w.defs[s.op as usize];
    if def.inplace {
        let orig = w.ob(s.a);
        let mut r = lib(|| orig.clone());
        run_step_on(w, s, Some(&mut r));
    } else {
        run_step_on(w, s, None);
    }
}
/// `recv`: the receiver of an in-place operation
pub fn run_step_on(w: &World, s: &Step, mut recv: Option<&mut Obj>) {
    let mut o = mzrt::OUT0;
    run_into(w, s, recv.as_deref_mut(), &mut o);
    let sh = mzrt::shm();
    let i = (s.uid as usize).min(mzrt::MAXOUT - 1);
    sh.out[i] = o;
    sh.nout = sh.nout.max(i as u32 + 1);
}
pub fn run_into(w: &World, s: &Step, recv: Option<&mut Obj>, o: &mut Outcome) {
    let def = &w.defs[s.op as usize];
    let (a, b) = (w.ob(s.a), w.ob(s.b));
    let mut pa = None;
    let mut pb = None;
    let mut pl: Vec<Part> = vec![];
    if s.part & 1 != 0 {
        let mut v = vec![b];
        v.extend(s.vers.iter().map(|&i| w.ob(i)));
        let mut p = Part::new(v, 0, s.warp);
        p.fixed = s.fixed.map(|(x, y)| (x as usize, y as usize));
        pb = Some(p);
    }
    if s.part & 2 != 0 {
        pa = Some(Part::new(vec![a], 1, s.warp));
    }
    let mut al: Vec<&Obj> = vec![];
    if s.part & 8 != 0 {
        al = s.list.iter().map(|&i| w.ob(i)).collect();
    }
    for (k, &i) in s.list.iter().enumerate() {
        if s.part & 8 != 0 {
            break;
        }
        let mut v = vec![w.ob(i)];
        // each member of a union moves between its object and one further version
        if let Some(&x) = s.vers.get(k) {
            v.push(w.ob(x));
        }
        let mut p = Part::new(v, 0, s.warp);
        if let Some((m, _)) = s.fixed {
            // bit k of the mask: which version member k shows
            let x = ((m >> k) & 1) as usize;
            if x < p.v.len() {
                p.fixed = Some((x, x));
            }
        }
        pl.push(p);
    }
    let before = recv.as_ref().map(|r| state_hash(r));
    let outer = if s.part & 4 != 0 { ctx() } else { None };
    let own: (Option<&Part>, Option<&Part>, &[Part]) = unsafe {
        let (oa, ob, ol) = outer.map_or((std::ptr::null(), std::ptr::null(), &[] as *const [Part]), |c| c.own.get());
        (
            if oa.is_null() || s.part & 2 == 0 { pa.as_ref() } else { Some(&*oa) },
            if ob.is_null() || s.part & 1 == 0 { pb.as_ref() } else { Some(&*ob) },
            if ol.len() == pl.len() { &*ol } else { &pl },
        )
    };
    fn ptr<'a>(x: Option<&Part<'a>>) -> *const Part<'a> {
        x.map_or(std::ptr::null(), |p| p as *const Part)
    }
    let c = Ctx { own: Cell::new(unsafe { std::mem::transmute((ptr(own.0), ptr(own.1), own.2 as *const [Part])) }), w, trig: &s.trig, cb: Cell::new(0), calm: [Cell::new(0), Cell::new(0)], fl: Cell::new(0), moves: Cell::new(0) };
    let prev = CTX.replace(&c as *const Ctx as *const ());
    let win = mzrt::alloc_window();
    let cnt = mzrt::allocs_in_op();
    let g = Restore(prev, win);
    let (s0, p0) = mzrt::counters();
    let h0 = mzrt::oom_hits();
    mzrt::set_alloc_count(0);
    mzrt::fail_allocs(s.fail.0, s.fail.1);
    o.status = S_NONE;
    o.n = 0;
    let mut x = Args { a, b, spec: w.specs.get(s.a as usize), s: s.s, i: s.i, pa: own.0, pb: own.1, pl: own.2, al: &al, recv };
    // the outcome of the call is encoded while it runs, and forgotten if it unwinds
    let r = catch_unwind(AssertUnwindSafe(|| (def.f)(&mut x, o)));
    o.allocs = mzrt::allocs_in_op();
    mzrt::set_alloc_count(cnt);
    drop(g);
    let (s1, p1) = mzrt::counters();
    o.fl = c.fl.get();
    if mzrt::oom_hits() != h0 {
        o.fl |= mzrt::FL_OOM;
    }
    match r {
        Ok(()) => o.status = S_VALUE,
        Err(e) => {
            o.n = 0;
            o.status = if e.is::<Injected>() {
                S_INJECTED
            } else if e.is::<mzrt::OomMarker>() {
                S_OOM
            } else if e.is::<Endless>() {
                S_ENDLESS
            } else {
                fired(fault::LIBPANIC);
                S_PANIC
            };
            if let (Some(h), Some(r)) = (before, x.recv.as_deref()) {
                if state_hash(r) != h {
                    o.fl |= mzrt::FL_RECV;
                }
            }
        }
    }
    o.steps = s1 - s0;
    o.pts = p1 - p0;
    o.cbs = c.cb.get();
    o.moves = c.moves.get();
}
